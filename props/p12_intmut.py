from common import *
import itertools
from stats import *
from leap_ec.int_rep.ops import (mutate_randint, individual_mutate_randint, mutate_binomial,
                                 genome_mutate_binomial)

M = Module('P12')
M.boost = 2
M.assumptions = ['rates and uniformity judged at 6.5 sigma',
                 'binomial steps are centred to within one unit (integer rounding)']


def op_apply(op, g):
    ind = Individual(g, problem=FunctionProblem(lambda p: 0.0, True))
    ind.fitness = 3.0
    out = next(op(iter([ind])))
    check(out is ind, 'operator emitted another individual')
    check(out.fitness is None, 'fitness not invalidated')
    return out.genome


def rate_kw(c, n):
    return {'expected_num_mutations': c['p'] * n} if c['expected'] else {'probability': c['p']}


pair = st.one_of(st.tuples(st.integers(-20, 20), st.integers(0, 6)), st.tuples(st.integers(-20, 20), st.integers(0, 6)),
                 st.tuples(st.integers(-300, 300), st.integers(0, 6)), st.tuples(st.integers(-10 ** 9, 10 ** 9), st.sampled_from([0, 1, 6, 1000, 10 ** 6])),
                 st.tuples(st.sampled_from([-10 ** 9, 0, 7]), st.sampled_from([2 ** 31 - 8, 10 ** 9])).filter(lambda t: t[0] + t[1] < 2 ** 31))
bounds = lists_upto(pair.map(lambda t: [t[0], t[0] + t[1]]), 1, 7, 40, 110)
P = st.sampled_from([0.0, 0.3, 0.5, 1.0])


@M.sub(case(bounds=bounds, p=P, expected=bools, form=st.sampled_from(['genome', 'op', 'op_curried']),
            pos=st.lists(st.integers(0, 6), min_size=7, max_size=7).map(lambda l: l * 16),
            dt=st.sampled_from(['int64', 'int32'])), n=800, shards=2, rule='some gene changed')
def randint_shape(c, ctx):
    n = len(c['bounds'])
    b = [tuple(x) for x in c['bounds']]
    g = [lo + c['pos'][i] % (hi - lo + 1) for i, (lo, hi) in enumerate(b)]
    kw = rate_kw(c, n)
    src = np.array(g, dtype=c['dt'])
    if c['form'] == 'genome':
        out = individual_mutate_randint(src, b, **kw)
    elif c['form'] == 'op':
        out = op_apply(lambda it: mutate_randint(it, b, **kw), src)
    else:
        out = op_apply(mutate_randint(bounds=b, **kw), src)
    check(out.shape == (n,) and out.dtype == np.dtype(c['dt']), 'shape/type changed: %r', out)
    for i, (lo, hi) in enumerate(b):
        check(lo <= out[i] <= hi, 'gene %d = %r outside %r', i, out[i], b[i])
    if c['p'] == 0:
        check(out.tolist() == g, 'rate 0 changed the genome')
    ctx.nt(out.tolist() != g)


@M.sub(case(bounds=st.lists(st.tuples(st.one_of(st.integers(-20, 20), st.integers(-300, 300), st.integers(-10 ** 9, 10 ** 9)), st.integers(0, 4)).map(lambda t: [t[0], t[0] + t[1]]),
                            min_size=1, max_size=4),
            p=st.sampled_from([0.2, 0.6, 1.0]), expected=bools, op=bools), n=40, mult=6, shards=3,
       rule='some range has more than one value (1000 mutations)')
def randint_distribution(c, ctx):
    n, N = len(c['bounds']), 1000
    b = [tuple(x) for x in c['bounds']]
    kw = rate_kw(c, n)
    # start from a value outside the range so that selection is visible
    g0 = np.array([hi + 50 for lo, hi in b])
    rows = []
    for _ in range(N):
        rows.append(op_apply(mutate_randint(bounds=b, **kw), g0.copy()) if c['op']
                    else individual_mutate_randint(g0.copy(), b, **kw))
    rows = np.array(rows)
    mask = rows != g0
    check_mask_matrix(mask, c['p'], 'randint selection')
    for j, (lo, hi) in enumerate(b):
        check_uniform_ints(rows[mask[:, j], j], lo, hi, 'gene %d' % j)
    ctx.nt(any(hi > lo for lo, hi in b))


@M.sub(case(lo=st.sampled_from([0, -5, -10 ** 6, -2 ** 40, 2 ** 33]), w=st.sampled_from([1000, 5003, 10 ** 6, 2 ** 31 + 5, 2 ** 35, 2 ** 50]), op=bools),
       n=30, mult=6, rule='always (4000 genes with a wide range)')
def wide_randint(c, ctx):
    """Ranges of thousands up to billions of values are covered evenly, both ends and every residue included."""
    lo, w, N = c['lo'], c['w'], 4000
    b = [(lo, lo + w)] * N
    g0 = np.full(N, lo - 1, dtype=np.int64)
    out = op_apply(mutate_randint(bounds=b, probability=1.0), g0.copy()) if c['op'] else individual_mutate_randint(g0.copy(), b, probability=1.0)
    d = [int(x) - lo for x in out]
    check(min(d) >= 0 and max(d) <= w, 'gene %d from [%d, %d]', min(d) + lo if min(d) < 0 else max(d) + lo, lo, lo + w)
    for k in range(8):
        check_binom(sum(1 for x in d if x * 8 // (w + 1) == k), N, 1 / 8, 'eighth %d of the range' % k)
    for m in (2, 3):
        for r in range(m):
            check_binom(sum(1 for x in d if x % m == r), N, len(range(r, w + 1, m)) / (w + 1), 'values that are %d modulo %d' % (r, m))
    if w > 10 ** 6:
        check(len(set(d)) > N * 0.97, 'only %d different values in %d draws from %d', len(set(d)), N, w + 1)
    ctx.nt()


@M.sub(case(bounds=bounds, p=P, expected=bools, form=st.sampled_from(['genome', 'op', 'op_curried']),
            pos=st.lists(st.integers(0, 6), min_size=7, max_size=7).map(lambda l: l * 16),
            std=st.one_of(st.sampled_from([0.5, 1.0, 3.0, 20.0]),
                          st.lists(st.sampled_from([0.5, 1.0, 3.0, 20.0]), min_size=7, max_size=7).map(lambda l: l * 16))),
       n=800, shards=2, rule='some gene changed')
def binomial_shape(c, ctx):
    n = len(c['bounds'])
    b = [tuple(x) for x in c['bounds']]
    g = [lo + c['pos'][i] % (hi - lo + 1) for i, (lo, hi) in enumerate(b)]
    kw = rate_kw(c, n)
    std = c['std'][:n] if isinstance(c['std'], list) else c['std']
    src = np.array(g)
    if c['form'] == 'genome':
        out = genome_mutate_binomial(std, b, **kw)(src)
    elif c['form'] == 'op':
        out = op_apply(lambda it: mutate_binomial(it, std, b, **kw), src)
    else:
        out = op_apply(mutate_binomial(std=std, bounds=b, **kw), src)
    check(out.shape == (n,) and np.issubdtype(out.dtype, np.integer), 'shape/type changed: %r', out)
    for i, (lo, hi) in enumerate(b):
        check(lo <= out[i] <= hi, 'gene %d = %r outside %r', i, out[i], b[i])
    if c['p'] == 0:
        check(out.tolist() == g, 'rate 0 changed the genome')
    ctx.nt(out.tolist() != g)


@M.sub(case(n=st.integers(1, 4), p=st.sampled_from([0.3, 1.0]), expected=bools, op=bools,
            std=st.lists(st.sampled_from([1.5, 3.0, 8.0, 20.0]), min_size=4, max_size=4), vector=bools,
            flips=st.sampled_from([None, 2500, 40000])),
       n=36, mult=6, shards=3, rule='every case (1000 mutations)')
def binomial_distribution(c, ctx):
    n, N = c['n'], 1000
    b = [(-10 ** 6, 10 ** 6)] * n
    stds = c['std'][:n] if c['vector'] else [c['std'][0]] * n
    kw = rate_kw(c, n)
    if c['flips']:
        kw['n'] = c['flips']
    std = stds if c['vector'] else stds[0]
    g0 = np.array([100 * (i + 1) for i in range(n)])
    m = genome_mutate_binomial(std, b, **kw)
    rows = np.array([op_apply(mutate_binomial(std=std, bounds=b, **kw), g0.copy()) if c['op']
                     else m(g0.copy()) for _ in range(N)])
    steps = rows - g0
    for j in range(n):
        s = stds[j]
        if c['p'] == 1.0:
            x = steps[:, j]
            k = len(x)
            check(abs(x.mean()) <= 1.0 + 6.5 * s / math.sqrt(k), 'gene %d: mean step %g', j, x.mean())
            check(abs(x.var() - s * s) <= s * s * (6.5 * 1.8 * math.sqrt(2 / k)) + 0.3,
                  'gene %d: step variance %g for std %g', j, x.var(), s)
            check(int((x < 0).sum()) > 0 and int((x > 0).sum()) > 0, 'one-sided steps')
        else:
            # a selected gene keeps its value with the central binomial mass
            moved = int((steps[:, j] != 0).sum())
            check(moved <= N * c['p'] + 6.5 * math.sqrt(N * c['p'] * (1 - c['p'])) + 6,
                  'gene %d moved in %d of %d mutations at rate %g', j, moved, N, c['p'])
            p0 = min(1.0, 1.25 / (math.sqrt(2 * math.pi) * s))
            lowp = c['p'] * (1 - p0)
            check(moved >= N * lowp - 6.5 * math.sqrt(N * 0.25) - 6,
                  'gene %d moved only %d of %d at rate %g', j, moved, N, c['p'])
    ctx.nt()


@M.sub(case(n=st.sampled_from([20000, 100000]), rate=st.sampled_from([0.004, 0.0375, 1 / 3, 0.785, 1.0]), expected=bools, op=bools, lo=st.sampled_from([-7, 0, 95, 250, 70000]), w=st.sampled_from([1, 2, 9, 40])), n=40, mult=6,
       rule='every case (one genome of many genes)')
def long_randint(c, ctx):
    """High-power test of rate and uniformity in one call."""
    n, lo, hi = c['n'], c['lo'], c['lo'] + c['w']
    b = [(lo, hi), (lo + 1000, hi + 1001)] * (n // 2)
    kw = {'expected_num_mutations': c['rate'] * n} if c['expected'] else {'probability': c['rate']}
    g0 = np.full(n, -99)
    out = op_apply(mutate_randint(bounds=b, **kw), g0.copy()) if c['op'] else individual_mutate_randint(g0.copy(), b, **kw)
    sel = out != g0
    check_binom(int(sel.sum()), n, c['rate'], 'mutated genes of %d' % n)
    check_binom(int((sel[1:] & sel[:-1]).sum()), n - 1, c['rate'] ** 2, 'adjacent mutated genes', sigmas=12)
    for k in (0, 1):
        x = out[k::2][sel[k::2]]
        l, h = lo + 1000 * k, hi + 1001 * k
        cnt = np.bincount(np.clip(x - l, -1, h - l + 1) + 1, minlength=h - l + 3)
        check(cnt[0] == 0 and cnt[-1] == 0, 'a gene left its range [%d, %d]', l, h)
        for v in range(h - l + 1):
            check_binom(int(cnt[v + 1]), len(x), 1 / (h - l + 1), 'value %d' % (l + v))
        if len(x) > 1000:
            t = x > (l + h) / 2
            check_binom(int((t[1:] & t[:-1]).sum()), len(t) - 1, (t.mean()) ** 2, 'neighbouring values', sigmas=14)
    ctx.nt()


@M.sub(case(e=st.one_of(st.none(), st.sampled_from([0.0, 1.0])),
            p=st.one_of(st.none(), st.sampled_from([-0.5, 0.0, 0.5, 1.0, 1.5])), which=bools), n=100,
       rule='an invalid combination of rates')
def rate_arguments(c, ctx):
    ok = (c['e'] is None) != (c['p'] is None) and (c['p'] is None or 0 <= c['p'] <= 1)
    kw = {}
    if c['e'] is not None:
        kw['expected_num_mutations'] = c['e']
    if c['p'] is not None:
        kw['probability'] = c['p']
    b = [(0, 5)] * 3
    ind = Individual(np.array([0, 1, 1]))
    f = (lambda: next(mutate_randint(iter([ind]), b, **kw))) if c['which'] else \
        (lambda: next(mutate_binomial(iter([ind]), 1.0, b, **kw)))
    err = raises(ValueError, f)
    check(err != ok, 'rates %r: error=%s', kw, err)
    ctx.nt(not ok)


@M.sub(case(p=st.sampled_from([1.0, 1.0, 0.4]), form=st.sampled_from(['genome', 'op', 'op_curried']),
            std=st.sampled_from([0.5, 1.0, 1.5, 2.5, 4.5, 10.0, 40.0]),
            n=st.sampled_from([4, 16, 30, 100, 1000, 10000, 90000]), vector=bools), n=150, mult=8, shards=3,
       rule='the requested spread is achievable with n flips (8000 genes mutated in one call)')
def binomial_flips(c, ctx):
    """n coin flips with the requested standard deviation: unachievable requests
    are rejected; otherwise spread, support and rate follow the request."""
    K, s, n = 8000, c['std'], c['n']
    if 4 * s * s / n == 1.0:
        return
    b = (-10 ** 7, 10 ** 7)
    kw = dict(probability=c['p'], n=n)
    std = [s] * K if c['vector'] else s
    g0 = np.full(K, 17)

    def go():
        if c['form'] == 'genome':
            return genome_mutate_binomial(std, b, **kw)(g0.copy())
        if c['form'] == 'op':
            return op_apply(lambda it: mutate_binomial(it, std, b, **kw), g0.copy())
        return op_apply(mutate_binomial(std=std, bounds=b, **kw), g0.copy())
    if 4 * s * s / n > 1:
        check(raises(ValueError, go), 'std %g accepted with only %d flips', s, n)
        ctx.label('rejected')
        return
    ctx.nt()
    x = go() - g0
    check(int(np.abs(x).max()) <= n, 'a step of %d from %d flips', int(np.abs(x).max()), n)
    if c['p'] == 1.0:
        kurt = 2 + 1 / (s * s)
        check(abs(x.var() - s * s) <= 6.5 * s * s * math.sqrt(kurt / K) + 1e-9,
              'step variance %g for std %g (n=%d)', x.var(), s, n)
        check(abs(x.mean()) <= 1.0 + 6.5 * s / math.sqrt(K), 'mean step %g', x.mean())
    else:
        moved = int((x != 0).sum())
        check(moved <= K * c['p'] + 6.5 * math.sqrt(K * 0.25), '%d of %d genes moved at rate %g',
              moved, K, c['p'])


@M.sub(case(kind=st.sampled_from(['list', 'tuple', 'str']), which=st.integers(0, 3)), n=24,
       rule='every case')
def non_array_genomes(c, ctx):
    """Genomes that are not numpy arrays are rejected, not silently mangled."""
    g = {'list': [1, 2, 3], 'tuple': (1, 2, 3), 'str': '123'}[c['kind']]
    b = [(0, 5)] * 3
    ind = Individual(g, problem=FunctionProblem(lambda p: 0.0, True))
    f = [lambda: individual_mutate_randint(g, b, probability=1.0),
         lambda: genome_mutate_binomial(1.0, b, probability=1.0)(g),
         lambda: next(mutate_randint(iter([ind]), b, probability=1.0)),
         lambda: next(mutate_binomial(iter([ind]), 1.0, b, probability=1.0))][c['which']]
    check(raises(ValueError, f), '%s genome accepted', c['kind'])
    ctx.nt()
