from common import *
from leap_ec.binary_rep.problems import MaxOnes
from leap_ec.real_rep.problems import SpheroidProblem
from leap_ec.problem import (AverageFitnessProblem, ConstantProblem,
                             FitnessOffsetProblem, AlternatingProblem)

M = Module('P01')
M.boost = 3
M.assumptions = ['fitness pairs closer than the documented float tolerance '
                 '(1e-9 relative) but unequal are not generated',
                 'NaN versus NaN order is documented as a coin flip']

KINDS = ['float', 'int', 'np64', 'mixed', 'np32', 'huge', 'npint']
WRAP = ['function', 'average', 'offset', 'constant', 'alternating', 'builtin']


def conv(v, kind, i):
    if math.isnan(v) or math.isinf(v):
        return np.float64(v) if kind == 'np64' else np.float32(v) if kind == 'np32' else v
    if kind == 'int':
        return int(v * 8)
    if kind == 'huge':          # integers that a float cannot tell apart
        return (1 << 62) + int(v * 8)
    if kind == 'npint':
        return np.int64((1 << 60) + int(v * 8))
    if kind == 'np32':
        return np.float32(v)
    if kind == 'np64':
        return np.float64(v)
    if kind == 'mixed':
        return [v, np.float64(v), int(v * 8) if v == int(v) else v][i % 3] \
            if not (i % 3 == 2 and v == int(v)) else int(v)
    return v


def problem_for(wrap, maximize):
    base = FunctionProblem(lambda p: 0.0, maximize)
    if wrap == 'average':
        return AverageFitnessProblem(base, n=2)
    if wrap == 'offset':
        return FitnessOffsetProblem(base, fitness_offset=3.0)
    if wrap == 'constant':
        return ConstantProblem(maximize=maximize)
    if wrap == 'alternating':
        return AlternatingProblem([base], modulo=1,
                                  context={'leap': {'generation': 0}})
    if wrap == 'builtin':
        return MaxOnes() if maximize else SpheroidProblem()
    return base


@M.sub(case(fits=st.lists(any_fit, min_size=2, max_size=8), maximize=bools,
            kind=st.sampled_from(KINDS), wrap=st.sampled_from(WRAP)), n=1200,
       shards=2, rule='at least two different fitness values, some pair involving '
                      'NaN, infinity or a tie counted as class')
def pairwise(c, ctx):
    mx = c['maximize']
    fits = [conv(v, c['kind'], i) for i, v in enumerate(c['fits'])]
    prob = problem_for(c['wrap'], mx)
    pop = [ind_with(f, problem=prob) for f in fits]
    ctx.nt(len(set(map(repr, fits))) > 1)
    ctx.label('nan', any(math.isnan(f) for f in fits))
    ctx.label('minimise', not mx)
    ctx.label('wrap:' + c['wrap'])
    for a in pop:
        for b in pop:
            fa, fb = a.fitness, b.fitness
            if math.isnan(fa) and math.isnan(fb):
                continue
            if a is b:
                check(a == b, 'individual not equal to itself (%r)', fa)
            sa, sb = score(fa, mx), score(fb, mx)
            for op, got, want in (
                    ('<', a < b, sa < sb), ('>', a > b, sa > sb),
                    ('<=', a <= b, sa <= sb), ('>=', a >= b, sa >= sb),
                    ('==', a == b, sa == sb), ('!=', a != b, sa != sb)):
                check(bool(got) == want, 'maximize=%s: (%r %s %r) is %s', mx,
                      fa, op, fb, got)
    best = max(score(f, mx) for f in fits)
    worst = min(score(f, mx) for f in fits)
    check(score(max(pop).fitness, mx) == best, 'max() is not the best')
    check(score(min(pop).fitness, mx) == worst, 'min() is not the worst')
    s = [score(i.fitness, mx) for i in sorted(pop)]
    check(s == sorted(s), 'sorted() does not go from worst to best')
    r = [score(i.fitness, mx) for i in sorted(pop, reverse=True)]
    check(r == sorted(r, reverse=True), 'sorted(reverse) not best to worst')


@M.sub(case(f=any_fit, maximize=bools, kind=st.sampled_from(KINDS)), n=300,
       rule='every case (one individual against None)')
def versus_none(c, ctx):
    a = ind_with(conv(c['f'], c['kind'], 0), c['maximize'])
    ctx.nt()
    check(not (a == None), 'equal to None')          # noqa: E711
    check(a != None, 'not unequal to None')          # noqa: E711
    check(not (a < None), 'worse than None')
    check(a > None, 'not better than None')
    check(a >= None and not (a <= None), '>=/<= None inconsistent')


@M.sub(case(a=st.integers(-10 ** 12, 10 ** 12), b=st.integers(-10 ** 12, 10 ** 12),
            fa=st.floats(allow_nan=False), fb=st.floats(allow_nan=False),
            delta=st.integers(1, 7), sign=st.sampled_from([-1, 1]),
            maximize=bools), n=800,
       rule='the two values differ by more than the tolerance')
def wide_range(c, ctx):
    """Arbitrary magnitudes, including subnormals and the largest floats."""
    mx = c['maximize']
    for fa, fb in ((c['fa'], c['fb']), (c['a'], c['b']), (c['a'] / 1e6, c['fb']),
                   (c['fa'], c['fa'] * (1 + c['sign'] * 10.0 ** -c['delta'])),
                   (c['a'] / 1e3, c['a'] / 1e3 * (1 + c['sign'] * 10.0 ** -c['delta']))):
        near = fa != fb and math.isclose(fa, fb, rel_tol=1e-8)
        if near:
            continue
        ctx.nt(fa != fb)
        a, b = ind_with(fa, mx), ind_with(fb, mx)
        sa, sb = score(fa, mx), score(fb, mx)
        check((a > b) == (sa > sb) and (a < b) == (sa < sb) and
              (a == b) == (sa == sb) and (a >= b) == (sa >= sb) and
              (a <= b) == (sa <= sb),
              'maximize=%s %r vs %r ordered wrongly', mx, fa, fb)
        n = ind_with(math.nan, mx)
        check(n < a and a > n and not (a < n) and not (a == n),
              'NaN not worse than %r', fa)
