from common import *
from leap_ec.landscape_features.exploratory import ELAConvexity
from leap_ec.representation import Representation
from leap_ec.decoder import Decoder

M = Module('P45')
M.assumptions = ['Design coordinates are multiples of 1/8 of magnitude at most 12.5, so rounding errors stay far below the 1e-10 linearity threshold.']


class Scale(Decoder):
    def __init__(self, k):
        self.k = k

    def decode(self, genome, *args, **kwargs):
        return np.asarray(genome) * self.k


@st.composite
def designs(draw):
    dim = draw(st.integers(1, 5))
    n = draw(upto(3, 8, 30, 130))
    if n > 30:
        dim = max(dim, 2)
        flat = draw(st.lists(st.integers(-100, 100), min_size=2, max_size=2))
        pts = [[(flat[0] + 7 * i) % 201 - 100, (flat[1] + i) % 201 - 100] + [(3 * i + j) % 50 for j in range(2, dim)] for i in range(n)]
    else:
        pts = draw(st.lists(st.lists(st.integers(-100, 100), min_size=dim, max_size=dim), min_size=n, max_size=n, unique_by=tuple))
    coef = draw(st.lists(st.integers(-4, 4), min_size=dim, max_size=dim))
    return dict(pts=pts, coef=coef, const=draw(st.integers(-5, 5)))


def fun(kind, coef, const):
    co = np.array(coef, dtype=float)
    if kind == 'linear':
        return lambda x: float(np.dot(co, x) + const)
    if kind == 'convex':
        return lambda x: float(np.dot((np.abs(co) + 1) * np.asarray(x), x) + const)
    if kind == 'concave':
        return lambda x: -float(np.dot((np.abs(co) + 1) * np.asarray(x), x) + const)
    return lambda x: float(np.sum(np.sin(np.asarray(x) * (np.abs(co) + 1))) + const)


@M.sub(case(d=designs(), kind=st.sampled_from(['linear', 'convex', 'concave', 'wavy']), tests=upto(1, 60, 300, 700), tiny=st.sampled_from([1.0, 1.0, 1.0, 2.0 ** -36, 2.0 ** -40]), ints=st.integers(0, 3), tie=st.integers(0, 99), k=st.sampled_from([1.0, 0.5, -2.0]), mx=bools, thr=st.sampled_from([-1e-10, -1.0, -0.125, -20.0])), n=700, shards=4, rule='a nonlinear function in at least two dimensions')
def features(c, ctx):
    d = c['d']
    f0 = fun(c['kind'], d['coef'], d['const'])
    tiny = c['tiny']
    f = f0 if tiny == 1 else (lambda x: f0(x) * tiny)
    calls = []

    def ff(x):
        calls.append(np.array(x, dtype=float).tolist())
        return f(x)
    prob = FunctionProblem(ff, c['mx'])
    dec = Scale(c['k'])
    rep = Representation(initialize=lambda: None, decoder=dec)
    pop = [Individual(np.array(p) if c['ints'] == 0 else np.array(p) / 8.0, decoder=dec, problem=prob) for p in d['pts']]
    for i in pop:
        i.evaluate()
    before = [snap(i) for i in pop]
    base = list(pop)
    n0 = len(calls)
    ela = ELAConvexity(prob, rep, pop, num_convexity_tests=c['tests'])
    check(len(calls) - n0 == c['tests'], '%d additional evaluations for %d tests', len(calls) - n0, c['tests'])
    check(same_list(pop, base) and [snap(i) for i in pop] == before, 'the design was changed')
    pairs, combs, deltas = ela.pairs, ela.combinations, ela.deltas
    check(len(pairs) == len(combs) == len(deltas) == c['tests'], '%d pairs, %d combinations, %d deltas', len(pairs), len(combs), len(deltas))
    scale = tiny + max(abs(i.fitness) for i in pop)
    for (x, y), (fc, p), dl in zip(pairs, combs, deltas):
        idx_of(x, pop), idx_of(y, pop)
        check(x is not y, 'a test used the same individual twice')
        gx, gy, gp = x.genome, y.genome, p.genome
        j = int(np.argmax(np.abs(gx - gy)))
        a = (gp[j] - gy[j]) / (gx[j] - gy[j])
        check(-1e-9 <= a <= 1 + 1e-9, 'combination weight %r', a)
        check(np.allclose(gp, a * gx + (1 - a) * gy, atol=1e-9), 'the new point %r is not between %r and %r', gp, gx, gy)
        check(close(fc, a * x.fitness + (1 - a) * y.fitness, 1e-9, 1e-9 * scale), 'fitness combination %r, expected %r', fc, a * x.fitness + (1 - a) * y.fitness)
        check(close(p.fitness, f(np.array(gp) * c['k']), 1e-12, 1e-12 * scale), 'fitness of the new point %r, expected %r', p.fitness, f(np.array(gp) * c['k']))
        check(close(dl, p.fitness - fc, 1e-12, 1e-12 * scale), 'delta %r, expected %r', dl, p.fitness - fc)
        if c['kind'] in ('convex', 'concave'):
            q = a * (1 - a) * float(np.dot(np.abs(np.array(d['coef'])) + 1, ((gx - gy) * c['k']) ** 2))
            q *= tiny
            check(close(dl, -q if c['kind'] == 'convex' else q, 1e-6, 1e-8 * scale), 'delta %r of a quadratic, expected magnitude %r', dl, q)
    n = len(deltas)
    t = c['thr']
    near = -abs(deltas[c['tie'] % n])          # a threshold equal to one of the differences
    for tt in ([near] if near < 0 else []) + [-1e-14, -1e-300]:
        check(close(ela.convex_p(threshold=tt), sum(x < tt for x in deltas) / n, 1e-12, 1e-12), 'convex_p at threshold %r: %r', tt, ela.convex_p(threshold=tt))
        check(close(ela.linear_p(threshold=tt), sum(abs(x) < abs(tt) for x in deltas) / n, 1e-12, 1e-12), 'linear_p at threshold %r: %r', tt, ela.linear_p(threshold=tt))
    check(close(ela.convex_p(threshold=t), sum(x < t for x in deltas) / n, 1e-12, 1e-12), 'convex_p %r', ela.convex_p(threshold=t))
    check(close(ela.linear_p(threshold=t), sum(abs(x) < abs(t) for x in deltas) / n, 1e-12, 1e-12), 'linear_p %r', ela.linear_p(threshold=t))
    w = dict(cp=sum(x < -1e-10 for x in deltas) / n, lp=sum(abs(x) < 1e-10 for x in deltas) / n, ld=sum(deltas) / n, la=sum(map(abs, deltas)) / n)
    check(close(ela.convex_p(), w['cp'], 1e-12, 1e-12) and close(ela.linear_p(), w['lp'], 1e-12, 1e-12), 'default thresholds: %r %r', ela.convex_p(), ela.linear_p())
    check(close(ela.linear_deviation(), w['ld'], 1e-9, 1e-9 * scale), 'linear_deviation %r, expected %r', ela.linear_deviation(), w['ld'])
    check(close(ela.linear_deviation_abs(), w['la'], 1e-9, 1e-9 * scale), 'linear_deviation_abs %r, expected %r', ela.linear_deviation_abs(), w['la'])
    if c['kind'] == 'linear':
        check(ela.linear_p() == 1.0 and ela.convex_p() == 0.0 and ela.linear_deviation_abs() < 1e-10, 'a linear function is reported as linear_p=%r convex_p=%r', ela.linear_p(), ela.convex_p())
    elif c['kind'] == 'convex':
        check(ela.linear_deviation() <= 0 and close(ela.linear_deviation_abs(), -ela.linear_deviation(), 1e-9, 1e-9 * scale), 'convex function has deviation %r', ela.linear_deviation())
    elif c['kind'] == 'concave':
        check(ela.convex_p() == 0.0, 'a concave function is reported convex with %r', ela.convex_p())
    tab = ela.results_table('fn')
    row = tab.to_dict('records')
    check(len(row) == 1 and row[0]['Function'] == 'fn', 'results table %r', row)
    for col, v in (('P(convex)', w['cp']), ('P(linear)', w['lp']), ('Linear_deviation', w['ld']), ('Linear_deviation_abs', w['la'])):
        check(close(row[0][col], v, 1e-9, 1e-9 * scale), 'table column %s is %r, expected %r', col, row[0][col], v)
    # the lists handed out are copies
    ela.deltas.clear()
    ela.pairs.clear()
    ela.combinations.clear()
    check(len(ela.deltas) == len(ela.pairs) == len(ela.combinations) == n, 'clearing a returned list changed the analysis')
    ctx.nt(c['kind'] != 'linear' and len(d['coef']) > 1)


@M.sub(case(d=designs()), n=30, shards=3, mult=6, rule='always')
def sampling(c, ctx):
    """Every pair can be chosen and the weights spread over the unit interval."""
    pts = c['d']['pts'][:4] if len(c['d']['pts']) < 30 else c['d']['pts'][:30]
    prob = FunctionProblem(lambda x: float(np.sum(x)), True)
    pop = [Individual(np.array(p) / 8.0, problem=prob) for p in pts]
    for i in pop:
        i.evaluate()
    n = 600
    ela = ELAConvexity(prob, Representation(initialize=lambda: None), pop, num_convexity_tests=n)
    seen = {frozenset((idx_of(x, pop), idx_of(y, pop))) for x, y in ela.pairs}
    m = len(pts)
    if m > 4:
        check({i for s in seen for i in s} == set(range(m)), 'some of the %d design points were never used', m)
    check(m > 4 or len(seen) == m * (m - 1) // 2, 'only the pairs %r were ever tested', sorted(map(sorted, seen)))
    low = mid = 0
    for (x, y), (_, p) in zip(ela.pairs, ela.combinations):
        j = int(np.argmax(np.abs(x.genome - y.genome)))
        a = (p.genome[j] - y.genome[j]) / (x.genome[j] - y.genome[j])
        low += a < 0.5
        mid += 0.25 < a < 0.75
    check_binom(low, n, 0.5, 'combination weights below one half')
    check_binom(mid, n, 0.5, 'combination weights in the middle half')
    ctx.nt()
