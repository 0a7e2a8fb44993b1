from common import *
import itertools
from leap_ec import ops

M = Module('P09')
M.boost = 3


def tagged(kind, n, base):
    if kind == 'int':
        return np.array([base + i for i in range(n)])
    if kind == 'float':
        return np.array([base + i + 0.5 for i in range(n)])
    if kind == 'segs':
        return [np.array([base + i, base + i]) for i in range(n)]
    return [base + i for i in range(n)]


def tags(g):
    return [int(np.ravel(x)[0]) for x in g]


def mate(kind, n, base, fit=1.0):
    i = Individual(tagged(kind, n, base), problem=FunctionProblem(lambda p: 0.0, True))
    i.fitness = fit
    i.parents = {'parent-of-%d' % base, 'shared'}
    return i


@M.sub(case(kind=st.sampled_from(['int', 'float', 'list', 'segs']),
            xo=st.sampled_from(['uniform', 'nary']), n=upto(1, 14, 33, 65, 130),
            points=upto(1, 14, 32, 64, 999), p=st.sampled_from([0.0, 0.2, 0.5, 1.0]),
            pairs=st.integers(1, 3), via=bools), n=1000, shards=2,
       rule='the children differ from the mates')
def equal_length(c, ctx):
    kind, n = c['kind'], c['n']
    if c['xo'] == 'uniform':
        kind = 'int' if kind in ('list', 'segs') else kind
        op = ops.UniformCrossover(p_swap=c['p'])
    else:
        k = min(c['points'], n)
        op = ops.NAryCrossover(num_points=k)
    mates = []
    for q in range(c['pairs']):
        mates += [mate(kind, n, 1000 * (2 * q + 1)), mate(kind, n, 1000 * (2 * q + 2))]
    lin = [set(m.parents) for m in mates]
    kids = list(itertools.islice(op(iter(mates)), len(mates)))
    check(same_list(kids, mates), 'children are not delivered pair by pair in order')
    for q in range(c['pairs']):
        a, b = kids[2 * q], kids[2 * q + 1]
        A, B = tags(tagged(kind, n, 1000 * (2 * q + 1))), tags(tagged(kind, n, 1000 * (2 * q + 2)))
        ga, gb = tags(a.genome), tags(b.genome)
        check(len(ga) == n and len(gb) == n, 'length changed: %d %d', len(ga), len(gb))
        own = []
        for i in range(n):
            check((ga[i], gb[i]) in ((A[i], B[i]), (B[i], A[i])),
                  'locus %d holds %r/%r, mates had %r/%r', i, ga[i], gb[i], A[i], B[i])
            own.append(ga[i] == A[i])
        ctx.nt(not all(own))
        check(a.fitness is None and b.fitness is None, 'fitness survived crossover')
        union = lin[2 * q] | lin[2 * q + 1]
        check(set(a.parents) == union and set(b.parents) == union,
              'children do not record both parents: %r %r', a.parents, b.parents)
        a.parents.add('later')
        check('later' not in b.parents, 'siblings share one parent set')
        a.parents.discard('later')
        if c['xo'] == 'nary':
            switches = sum(1 for x, y in zip([True] + own, own) if x != y)
            check(switches == k, '%d-point crossover cut at %d positions: %r', k, switches, own)
        elif c['p'] == 0.0:
            check(all(own), 'p_swap=0 swapped a gene')
        elif c['p'] == 1.0:
            check(not any(own), 'p_swap=1 kept a gene')
        if kind in ('int', 'float'):
            check(isinstance(a.genome, np.ndarray) and isinstance(b.genome, np.ndarray)
                  and not np.shares_memory(a.genome, b.genome), 'children share storage')
            check(a.genome.dtype == b.genome.dtype == tagged(kind, 1, 0).dtype, 'dtype changed')
        else:
            check(isinstance(a.genome, list) and isinstance(b.genome, list)
                  and a.genome is not b.genome, 'list genome became %r', type(a.genome))
    ctx.label(c['xo'] + ':' + kind)


@M.sub(case(kind=st.sampled_from(['int', 'float', 'list', 'segs']),
            xo=st.sampled_from(['uniform', 'nary']), na=upto(1, 10, 40, 70), nb=upto(1, 10, 35, 70),
            points=upto(1, 10, 34, 999), p=st.sampled_from([0.2, 0.5, 1.0])), n=800, shards=2,
       rule='mates of different length whose children differ from them')
def unequal_length(c, ctx):
    kind, na, nb = c['kind'], c['na'], c['nb']
    m = min(na, nb)
    if c['xo'] == 'uniform':
        kind = 'int' if kind in ('list', 'segs') else kind
        op = ops.UniformCrossover(p_swap=c['p'])
    else:
        op = ops.NAryCrossover(num_points=min(c['points'], m))
    a, b = mate(kind, na, 1000), mate(kind, nb, 2000)
    A, B = tags(a.genome), tags(b.genome)
    kids = list(itertools.islice(op(iter([a, b])), 2))
    ga, gb = tags(kids[0].genome), tags(kids[1].genome)
    check(sorted(ga + gb) == sorted(A + B), 'genes lost or invented: %r %r from %r %r',
          ga, gb, A, B)
    for g in (ga, gb):
        for src in (A, B):
            s = [x for x in g if x in src]
            check(s == sorted(s), 'genes of one mate were reordered: %r', g)
    if c['xo'] == 'uniform':
        check(len(ga) == na and len(gb) == nb, 'length changed')
        for i in range(m):
            check({ga[i], gb[i]} == {A[i], B[i]}, 'locus %d wrong', i)
        check(ga[m:] == A[m:] and gb[m:] == B[m:], 'tail changed')
    ctx.nt(na != nb and ga != A)


@M.sub(case(xo=st.sampled_from(['uniform', 'nary']), n=st.integers(2, 6), p=st.sampled_from([0.1, 0.2, 0.5, 0.8]),
            points=st.integers(1, 3), px=st.sampled_from([0.0, 0.3, 0.7, 1.0])), n=40, mult=6, shards=2,
       rule='crossover probability strictly between 0 and 1, or rates per locus (600 pairs per case)')
def rates(c, ctx):
    n, N = c['n'], 600
    k = min(c['points'], n)
    op = ops.UniformCrossover(p_swap=c['p'], p_xover=c['px']) if c['xo'] == 'uniform' \
        else ops.NAryCrossover(num_points=k, p_xover=c['px'])
    happened, locus = 0, [0] * n
    for _ in range(N):
        a, b = mate('int', n, 1000), mate('int', n, 2000)
        la, lb = set(a.parents), set(b.parents)
        x, y = itertools.islice(op(iter([a, b])), 2)
        if x.fitness is None:
            check(y.fitness is None, 'only one child lost its fitness')
            happened += 1
            g = [t < 2000 for t in tags(x.genome)]
            prev = True
            for i in range(n):
                if c['xo'] == 'uniform':
                    locus[i] += not g[i]
                else:
                    locus[i] += g[i] != prev
                    prev = g[i]
        else:
            check(x.fitness == 1.0 and y.fitness == 1.0, 'untouched pair changed fitness')
            check(tags(x.genome) == tags(tagged('int', n, 1000)) and
                  tags(y.genome) == tags(tagged('int', n, 2000)), 'untouched pair changed genome')
            check(set(x.parents) == la and set(y.parents) == lb, 'untouched pair changed parents')
    check_binom(happened, N, c['px'], 'crossover rate')
    p = c['p'] if c['xo'] == 'uniform' else k / n
    for i in range(n):
        check_binom(locus[i], happened, p, 'locus %d of %s' % (i, c['xo']))
    ctx.nt()


@M.sub(case(xo=st.sampled_from(['uniform', 'nary']), px=st.sampled_from([0.0, 0.5, 1.0]),
            persist=bools, takes=st.lists(st.integers(0, 5), min_size=1, max_size=8)), n=600,
       rule='some call consumes an odd number of children and another call follows')
def persistence(c, ctx):
    total = sum(t + 2 for t in c['takes']) + 4
    mates = [mate('int', 3, 1000 * (i + 1)) for i in range(total)]
    src = iter(mates)
    op = ops.UniformCrossover(p_xover=c['px'], p_swap=0.5, persist_children=c['persist']) \
        if c['xo'] == 'uniform' else \
        ops.NAryCrossover(p_xover=c['px'], persist_children=c['persist'])
    nxt, pending = 0, None
    for t in c['takes']:
        got = list(itertools.islice(op(src), t))
        check(len(got) == t, 'short delivery')
        for j, g in enumerate(got):
            if j == 0 and c['persist'] and pending is not None:
                want, pending = mates[pending], None
            elif pending is not None and j > 0:
                want, pending = mates[pending], None
            else:
                want, pending, nxt = mates[nxt], nxt + 1, nxt + 2
            check(g is want, 'call delivered the wrong child (persist=%s, takes=%r)',
                  c['persist'], c['takes'])
        if not c['persist']:
            pending = None
    ctx.nt(any(t % 2 for t in c['takes'][:-1]))
    ctx.label('persist', c['persist'])


@M.sub(case(xo=st.sampled_from(['uniform', 'nary']), n=upto(1, 6, 40), k=st.integers(0, 3), pairs=st.integers(1, 3)), n=200,
       rule='mates with the same genes at all, or all but a few, loci')
def similar_mates(c, ctx):
    """Mates with equal genomes are crossed like any others."""
    n = c['n']
    op = ops.UniformCrossover() if c['xo'] == 'uniform' else ops.NAryCrossover(num_points=1 + c['k'] % n)
    mates = []
    for q in range(2 * c['pairs']):
        m = mate('int', n, 1000)
        m.parents = {'p%d' % q}
        m.genome[:c['k'] % (n + 1)] += q
        mates.append(m)
    was = [m.genome.tolist() for m in mates]
    kids = list(itertools.islice(op(iter(mates)), len(mates)))
    for q in range(c['pairs']):
        a, b = kids[2 * q:2 * q + 2]
        check(a.fitness is None and b.fitness is None, 'fitness survived crossover')
        check(set(a.parents) == set(b.parents) == {'p%d' % (2 * q), 'p%d' % (2 * q + 1)}, 'children do not record both parents: %r %r', a.parents, b.parents)
        for i in range(n):
            check(sorted([a.genome[i], b.genome[i]]) == sorted([was[2 * q][i], was[2 * q + 1][i]]), 'locus %d holds %r/%r', i, a.genome[i], b.genome[i])
    ctx.nt()


@M.sub(case(n=st.integers(1, 6), points=st.integers(1, 9)), n=100,
       rule='more points than genes')
def too_many_points(c, ctx):
    a, b = mate('int', c['n'], 1000), mate('int', c['n'], 2000)
    op = ops.NAryCrossover(num_points=c['points'])
    err = raises(RuntimeError, lambda: next(op(iter([a, b]))))
    check(err == (c['points'] > c['n']), 'points=%d length=%d: error=%s', c['points'], c['n'], err)
    ctx.nt(c['points'] > c['n'])
