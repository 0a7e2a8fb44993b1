from common import *
import itertools
from leap_ec import ops

M = Module('P07')
M.boost = 3
M.assumptions = ['selection frequencies are judged with bounds of 6.5 standard '
                 'deviations plus 6 counts']

KEY = {'none': None,
       'neg': lambda i: -i.fitness,
       'mod': lambda i: int(i.genome[0]) % 3}


def rank(i, key, mx):
    return key(i) if key else score(i.fitness, mx)


@M.sub(case(fits=st.lists(st.one_of(finite_fit, finite_fit, infs), min_size=1, max_size=40),
            maximize=bools, k=upto(1, 6, 12, 30, 60), key=st.sampled_from(sorted(KEY)),
            worst=bools, idx=bools, draws=st.integers(1, 30)), n=700, shards=2,
       rule='population of at least two different ranks')
def tournament_contract(c, ctx):
    mx, key = c['maximize'], KEY[c['key']]
    pop = pop_with(c['fits'], mx)
    orig = list(pop)
    before = [snap(p) for p in pop]
    indices = [17, 18] if c['idx'] else None
    kw = dict(k=c['k'], select_worst=c['worst'], indices=indices)
    if key:
        kw['key'] = key
    it = ops.tournament_selection(pop, **kw) if c['seed'] % 2 else \
        ops.tournament_selection(**kw)(pop)
    seen = set()
    for _ in range(c['draws']):
        ind = next(it)
        j = idx_of(ind, pop)
        if indices is not None:
            check(len(indices) == 1 and pop[indices[0]] is ind,
                  'reported index %r is not the position %d of the individual', indices, j)
        seen.add(j)
    check(same_list(pop, orig) and [snap(p) for p in pop] == before, 'population modified')
    r = [rank(p, key, mx) for p in pop]
    ctx.nt(len(set(r)) > 1)


@M.sub(case(fits=st.lists(st.one_of(tied, eighths), min_size=2, max_size=6),
            maximize=bools, k=st.integers(1, 5), key=st.sampled_from(sorted(KEY)),
            worst=bools), n=60, mult=6, shards=3,
       rule='at least two different ranks (2500 draws per case)')
def tournament_distribution(c, ctx):
    mx, key, k = c['maximize'], KEY[c['key']], c['k']
    pop = pop_with(c['fits'], mx)
    n, N = len(pop), 2500
    kw = dict(k=k, select_worst=c['worst'])
    if key:
        kw['key'] = key
    it = ops.tournament_selection(pop, **kw)
    cnt = {}
    for ind in itertools.islice(it, N):
        rk = rank(ind, key, mx)
        cnt[rk] = cnt.get(rk, 0) + 1
    r = sorted(rank(p, key, mx) for p in pop)
    if c['worst']:
        r = r[::-1]
    for rk in set(r):
        lo = r.index(rk)                       # how many are beaten by rk
        hi = lo + r.count(rk)
        p = (hi / n) ** k - (lo / n) ** k
        check_binom(cnt.get(rk, 0), N, p, 'rank %r of %r, k=%d worst=%s' % (rk, r, k, c['worst']))
    ctx.nt(len(set(r)) > 1)
    ctx.label('k=%d' % k)


@M.sub(case(fits=st.lists(any_fit, min_size=3, max_size=8), maximize=bools, k=st.integers(2, 5)),
       n=40, mult=6, rule='population contains viable and NaN individuals')
def tournament_nan(c, ctx):
    """NaN only wins a tournament made up of NaN individuals."""
    pop = pop_with(c['fits'], c['maximize'])
    n, N = len(pop), 1500
    bad = sum(1 for f in c['fits'] if math.isnan(f))
    wins = sum(1 for i in itertools.islice(ops.tournament_selection(pop, k=c['k']), N)
               if math.isnan(i.fitness))
    check_binom(wins, N, (bad / n) ** c['k'], 'NaN winners')
    ctx.nt(0 < bad < n)


@M.sub(case(n=upto(1, 8, 20, 50), idx=bools), n=60, mult=6,
       rule='population of at least two (2000 draws per case)')
def random_uniform(c, ctx):
    pop = pop_with([float(i) for i in range(c['n'])])
    orig = list(pop)
    indices = [] if c['idx'] else None
    it = ops.random_selection(pop, indices=indices) if c['idx'] else ops.random_selection(pop)
    N, cnt, pairs = 2000, [0] * c['n'], 0
    last = None
    for _ in range(N):
        ind = next(it)
        j = idx_of(ind, pop)
        if indices is not None:
            check(indices == [j], 'reported index %r, position %d', indices, j)
        cnt[j] += 1
        pairs += (j == last)
        last = j
    for j in range(c['n']):
        check_binom(cnt[j], N, 1 / c['n'], 'member %d' % j)
    check_binom(pairs, N - 1, 1 / c['n'], 'immediate repeats')
    check(same_list(pop, orig), 'population modified')
    ctx.nt(c['n'] > 1)


@M.sub(case(n=upto(1, 9, 33, 70), draws=upto(1, 40, 150), idx=bools), n=400,
       rule='more draws than members')
def naive_cyclic(c, ctx):
    pop = pop_with([1.0] * c['n'])
    indices = [None] * (c['draws'] % 3) if c['idx'] else None      # old reports are replaced
    it = ops.naive_cyclic_selection(pop, indices=indices) if c['idx'] else \
        ops.naive_cyclic_selection(pop)
    for d in range(c['draws']):
        ind = next(it)
        check(ind is pop[d % c['n']], 'draw %d is not member %d', d, d % c['n'])
        if indices is not None:
            check(indices == [d % c['n']], 'reported index %r at draw %d', indices, d)
    ctx.nt(c['draws'] > c['n'])


@M.sub(case(n=upto(1, 9, 33, 70, 130), tours=st.integers(1, 6), extra=st.integers(0, 8)), n=500,
       rule='at least two tours of at least two members')
def cyclic(c, ctx):
    pop = pop_with([1.0] * c['n'])
    orig = list(pop)
    it = ops.cyclic_selection(pop)
    for t in range(c['tours']):
        tour = [idx_of(next(it), orig) for _ in range(c['n'])]
        check(sorted(tour) == list(range(c['n'])), 'tour %d is %r', t, tour)
        if t == 0:
            check(tour == list(range(c['n'])), 'first tour out of order: %r', tour)
    tail = [idx_of(next(it), orig) for _ in range(min(c['extra'], c['n']))]
    check(len(set(tail)) == len(tail), 'member repeated within a tour')
    check(same_list(pop, orig), 'population list was reordered')
    ctx.nt(c['tours'] > 1 and c['n'] > 1)


@M.sub(case(n=st.sampled_from([2, 3, 4, 5, 5, 7, 8, 12])), n=10, mult=5, rule='every case (1200 tours)')
def cyclic_shuffles(c, ctx):
    """Later tours are shuffled: every member is equally likely at each place."""
    pop = pop_with([1.0] * c['n'])
    it = ops.cyclic_selection(pop)
    [next(it) for _ in range(c['n'])]
    T = 1200
    cnt = [[0] * c['n'] for _ in range(c['n'])]
    last, repeats = None, [0] * c['n']
    for _ in range(T):
        tour = [idx_of(next(it), pop) for _ in range(c['n'])]
        for pos, j in enumerate(tour):
            cnt[pos][j] += 1
        if last is not None:
            for pos in range(c['n']):
                repeats[pos] += tour[pos] == last
        last = tour[-1]
    for pos in range(c['n']):
        check_binom(repeats[pos], T - 1, 1 / c['n'], 'last member of a tour at place %d of the next' % pos)
    for pos in range(c['n']):
        for j in range(c['n']):
            check_binom(cnt[pos][j], T, 1 / c['n'], 'member %d at place %d' % (j, pos))
    ctx.nt()


@M.sub(case(n=st.sampled_from([60, 130, 257, 300, 520]), how=st.sampled_from(['random', 'random-idx', 'tournament']),
            k=st.integers(1, 2)), n=8, mult=5, rule='every case (30 draws per member)')
def large_populations(c, ctx):
    """In a large population too, everybody can be drawn and equal parts of it are equally likely."""
    n = c['n']
    pop = pop_with([1.0] * n)
    where = {id(p): j for j, p in enumerate(pop)}
    N = 30 * n
    if c['how'] == 'tournament':
        it = ops.tournament_selection(pop, k=1)
    else:
        it = ops.random_selection(pop, indices=[]) if c['how'] == 'random-idx' else ops.random_selection(pop)
    cnt = [0] * n
    for ind in itertools.islice(it, N):
        check(id(ind) in where, 'yielded an individual that is not in the population')
        cnt[where[id(ind)]] += 1
    for j in range(n):
        check_binom(cnt[j], N, 1 / n, 'member %d of %d' % (j, n))
        check(cnt[j] > 0, 'member %d of %d never drawn in %d draws', j, n, N)
    for lo, hi in ((0, n // 2), (n // 4, n // 2), (n - n // 8, n)):
        check_binom(sum(cnt[lo:hi]), N, (hi - lo) / n, 'members %d to %d of %d' % (lo, hi, n))
    for m in (2, 3):
        check_binom(sum(cnt[::m]), N, len(cnt[::m]) / n, 'every %dth member of %d' % (m, n))
    ctx.nt()
    ctx.label(c['how'])


@M.sub(case(n=st.integers(16, 48), frac=st.sampled_from([3, 4, 5]), worst=bools, maximize=bools), n=4, mult=8,
       rule='every case (16000 tournaments)')
def large_tournaments(c, ctx):
    """Contestants are drawn with replacement, however large the tournament."""
    n, N = c['n'], 16000
    k = max(4, n // c['frac'] - 1)
    pop = pop_with([float((7 * j) % 53) for j in range(n)], c['maximize'])
    r = sorted(range(n), key=lambda j: score(pop[j].fitness, c['maximize']), reverse=not c['worst'])
    place = {id(pop[j]): q for q, j in enumerate(r)}
    cnt = [0] * n
    for ind in itertools.islice(ops.tournament_selection(pop, k=k, select_worst=c['worst']), N):
        cnt[place[id(ind)]] += 1
    for m in (1, 2, 3, n // 4, n // 2):
        check_binom(sum(cnt[:m]), N, 1 - (1 - m / n) ** k, 'winner among the top %d of %d with k=%d' % (m, n, k))
    ctx.nt()
