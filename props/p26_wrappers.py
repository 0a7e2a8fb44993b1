from common import *
import random
from leap_ec.problem import (AlternatingProblem, AverageFitnessProblem, FitnessOffsetProblem, ScalarProblem)
from leap_ec.real_rep.problems import (MatrixTransformedProblem, ScaledProblem, SpheroidProblem, TranslatedProblem, random_orthonormal_matrix)
from stats import check_uniform_reals

M = Module('P26')
M.assumptions = ['Transformed phenomes are compared within 1e-9 relative to their magnitude.']

f8 = st.integers(-80, 80).map(lambda i: i / 8)
pos = st.integers(1, 80).map(lambda i: i / 8)


class Spy(ScalarProblem):
    """Records the phenomes it is given; value = weighted sum + square."""
    bounds = (-2.0, 6.0)

    def __init__(self, maximize, n):
        super().__init__(maximize)
        self.w = [1.0 + 0.5 * i for i in range(n)]
        self.seen = []

    def evaluate(self, phenome, *a, **k):
        self.seen.append(np.array(phenome, dtype=float))
        return self.value(phenome)

    def value(self, x):
        return math.fsum(w * float(v) + 0.25 * float(v) ** 2 for w, v in zip(self.w, x))


@st.composite
def terms(draw):
    n = draw(st.integers(1, 4))
    vec = st.lists(f8, min_size=n, max_size=n)
    ws = []
    for _ in range(draw(st.integers(0, 4))):
        k = draw(st.sampled_from(['translate', 'scale', 'matrix', 'offset', 'offset', 'rotate', 'rtranslate']))
        mx = draw(st.sampled_from([None, None, True, False]))
        if k == 'translate':
            a = draw(vec)
        elif k == 'scale':
            lo = draw(f8)
            a = [lo, lo + draw(pos)]
        elif k == 'matrix':
            a = [draw(vec) for _ in range(n)]
        elif k == 'offset':
            a = draw(st.one_of(f8, st.integers(-5, 5)))
        else:
            lo = draw(f8)
            a = [lo, lo + draw(pos)]
        ws.append([k, a, mx])
    return dict(n=n, ws=ws, x=draw(vec), base=draw(bools), avg=draw(st.integers(0, 3)))


def build(d, seed):
    """Returns (wrapped problem, spy, reference point transform, expected direction, value offset)."""
    spy = Spy(d['base'], d['n'])
    p, mx = spy, d['base']
    fs, off, bounds = [], 0.0, Spy.bounds
    np.random.seed(seed % 2 ** 32)
    for k, a, m in d['ws']:
        if k == 'translate':
            p = TranslatedProblem(p, a, maximize=m)
            fs.append(lambda x, a=a: [v - o for v, o in zip(x, a)])
        elif k == 'rtranslate':
            p = TranslatedProblem.random(p, tuple(a), d['n'], maximize=m)
            o = [float(v) for v in p.offset]
            check(len(o) == d['n'] and all(a[0] <= v <= a[1] for v in o), 'random offset %r outside %r', o, a)
            fs.append(lambda x, a=o: [v - q for v, q in zip(x, a)])
        elif k == 'scale':
            p = ScaledProblem(p, tuple(a), maximize=m)
            fs.append(lambda x, a=a, b=bounds: [b[0] + (v - a[0]) / (a[1] - a[0]) * (b[1] - b[0]) for v in x])
            bounds = tuple(a)
        elif k in ('matrix', 'rotate'):
            if k == 'rotate':
                p = MatrixTransformedProblem.random_orthonormal(p, d['n'], maximize=m)
                mat = np.array(p.matrix)
                check(mat.shape == (d['n'],) * 2 and np.allclose(mat @ mat.T, np.identity(d['n']), atol=1e-7), 'rotation %r is not orthonormal', mat.tolist())
            else:
                mat = np.array(a)
                p = MatrixTransformedProblem(p, a, maximize=m)
            fs.append(lambda x, mat=mat: [math.fsum(mat[i][j] * x[j] for j in range(len(x))) for i in range(len(x))])
        else:
            p = FitnessOffsetProblem(p, a, maximize=m)
            off += a
        if m is not None:
            mx = m
        check(bool(p.maximize) == mx, '%s direction is %r, expected %r', k, p.maximize, mx)
        check(tuple(p.bounds) == tuple(bounds), '%s bounds %r, expected %r', k, p.bounds, bounds)
    return p, spy, fs, mx, off


@M.sub(case(d=terms()), n=2500, shards=4, rule='at least two wrappers of which one transforms the phenome')
def nesting(c, ctx):
    d = c['d']
    p, spy, fs, mx, off = build(d, c['seed'])
    x = np.array(d['x'])
    pt = list(d['x'])
    for f in reversed(fs):
        pt = f(pt)
    spy.seen.clear()
    got = [p.evaluate(x) for _ in range(2)]
    check(x.tolist() == d['x'], 'phenome changed to %r', x.tolist())
    check(len(spy.seen) == 2, 'wrapped function evaluated %d times for two evaluations', len(spy.seen))
    for s, g in zip(spy.seen, got):
        mag = 1 + max(map(abs, pt)) + 100 * sum(abs(v) for v in d['x'])
        check(len(s) == len(pt) and all(abs(a - b) <= 1e-9 * mag * 10 ** len(fs) for a, b in zip(s, pt)), 'wrapped function received %r, expected %r', s.tolist(), pt)
        check(close(g, spy.value(s) + off, 1e-9, 1e-9 * (1 + abs(off) + abs(spy.value(s)))), 'value %r, expected %r', g, spy.value(s) + off)
    check(got[0] == got[1], 'two evaluations of one phenome differ: %r', got)
    many = p.evaluate_multiple([x, x])
    check([float(v) for v in many] == [float(v) for v in got], 'evaluate_multiple gives %r, evaluate %r', many, got)
    check(p.worse_than(1.0, 2.0) == mx and p.worse_than(2.0, 1.0) == (not mx), 'comparison against direction %r', mx)
    check(p.equivalent(1.5, 1.5) and not p.equivalent(1.5, 2.5), 'equivalence')
    if d['avg']:
        q = AverageFitnessProblem(p, d['avg'])
        check(close(q.evaluate(x), got[0]) and close(q.evaluate_multiple([x])[0], got[0]), 'average of equal values differs')
    ctx.nt(len(d['ws']) > 1 and len(fs) > 0)
    for k, _, _ in d['ws']:
        ctx.label(k, True)


class Script(ScalarProblem):
    """Noisy wrapped function: scripted values in call order."""

    def __init__(self, values, maximize):
        super().__init__(maximize)
        self.values = list(values)
        self.calls = []

    def evaluate(self, phenome, *a, **k):
        v = self.values[len(self.calls)]
        self.calls.append((list(phenome), k.get('individual')))
        return v

    def evaluate_multiple(self, phenomes, individuals=None):
        if individuals is None:
            return [self.evaluate(p) for p in phenomes]
        check(len(phenomes) == len(individuals), 'individuals do not match phenomes')
        return [self.evaluate(p, individual=i) for p, i in zip(phenomes, individuals)]


@M.sub(case(n=upto(1, 5, 20, 60, 110), k=upto(0, 5, 20, 64), vals=st.lists(f8, min_size=25, max_size=25).map(lambda l: [v + i for i in range(300) for v in l]), mx=bools, inds=bools), n=800, shards=2, rule='more than one phenome and more than one copy')
def averaging(c, ctx):
    n, k = c['n'], c['k']
    script = Script(c['vals'], c['mx'])
    p = AverageFitnessProblem(script, n)
    xs = [[float(i), 1.0] for i in range(k)]
    inds = [Individual(np.array(x), problem=p) for x in xs] if c['inds'] else None
    got = p.evaluate_multiple([np.array(x) for x in xs], individuals=inds) if c['inds'] else p.evaluate_multiple([np.array(x) for x in xs])
    per = {}
    for (x, ind), v in zip(script.calls, c['vals']):
        per.setdefault(tuple(x), []).append(v)
        if c['inds']:
            check(ind is inds[int(x[0])], 'evaluation of %r was told individual %r', x, ind)
    check(len(got) == k, '%d results for %d phenomes', len(got), k)
    for x, g in zip(xs, got):
        vs = per.get(tuple(x), [])
        check(len(vs) == n and close(g, math.fsum(vs) / n), 'phenome %r evaluated %d times with %r, mean reported %r', x, len(vs), vs, g)
    script.calls.clear()
    g = p.evaluate(np.array([3.0, 4.0]))
    check(len(script.calls) == n and all(x == [3.0, 4.0] for x, _ in script.calls), 'single evaluation made calls %r', script.calls)
    check(close(g, math.fsum(c['vals'][:n]) / n), 'single mean %r', g)
    check(p.worse_than(1.0, 2.0) == c['mx'] and p.worse_than(2.0, 1.0) == (not c['mx']) and p.equivalent(1.0, 1.0) and not p.equivalent(1.0, 2.0), 'comparison')
    ctx.nt(n > 1 and k > 1)


@M.sub(case(ps=st.lists(st.tuples(f8, bools), min_size=1, max_size=4), modulo=upto(1, 5, 49, 103, 250), gens=st.lists(st.one_of(st.integers(0, 60), st.integers(0, 60), st.integers(61, 5000)), min_size=1, max_size=10), x=st.lists(f8, min_size=1, max_size=3)),
       n=600, shards=2, rule='the active problem changes during the history')
def alternating(c, ctx):
    cx = {'leap': {'generation': 0}}
    probs = [FunctionProblem(lambda v, o=o: float(np.sum(v)) + o, m) for o, m in c['ps']]
    p = AlternatingProblem(probs, c['modulo'], context=cx)
    used = set()
    for g in c['gens'] + sorted(c['gens']) + [k % 40 * c['modulo'] + d for k in c['gens'] for d in (0, c['modulo'] - 1)]:
        cx['leap']['generation'] = g
        i = (g // c['modulo']) % len(probs)
        used.add(i)
        check(p.get_current_problem() is probs[i], 'generation %d uses problem %r, expected %d of %d (modulo %d)', g, idx(probs, p.get_current_problem()), i, len(probs), c['modulo'])
        check(close(p.evaluate(np.array(c['x'])), sum(c['x']) + c['ps'][i][0]), 'value in generation %d', g)
        check(close(p.evaluate_multiple([np.array(c['x'])])[0], sum(c['x']) + c['ps'][i][0]), 'group value in generation %d', g)
        mx = c['ps'][i][1]
        check(p.worse_than(1.0, 2.0) == mx and p.worse_than(2.0, 1.0) == (not mx), 'comparison in generation %d', g)
        check(p.equivalent(1.0, 1.0) and not p.equivalent(1.0, 2.0), 'equivalence')
        a, b = ind_with(1.0, problem=p), ind_with(2.0, problem=p)
        check((a < b) == mx and (b < a) == (not mx), 'individuals compare against generation %d', g)
    ctx.nt(len(used) > 1)


def idx(ps, p):
    return [i for i, q in enumerate(ps) if q is p]


@M.sub(case(n=st.integers(1, 12)), n=300, shards=2, rule='at least two dimensions')
def orthonormal(c, ctx):
    np.random.seed(c['seed'] % 2 ** 32)
    random.seed(c['seed'])
    n = c['n']
    q = random_orthonormal_matrix(n)
    check(q.shape == (n, n), 'shape %r', q.shape)
    check(np.allclose(q @ q.T, np.identity(n), atol=1e-7) and np.allclose(q.T @ q, np.identity(n), atol=1e-7), 'not orthonormal: %r', q.tolist())
    q2 = random_orthonormal_matrix(n)
    check(n == 1 or not np.allclose(q, q2), 'two random rotations are equal')
    p = MatrixTransformedProblem.random_orthonormal(SpheroidProblem(), n)
    a, b = np.random.normal(size=(2, n))
    check(close(p.evaluate(a), float(a @ a), 1e-7), 'rotation changes the length of %r', a.tolist())
    m = np.array(p.matrix)
    check(close(float(np.sum((m @ a - m @ b) ** 2)), float(np.sum((a - b) ** 2)), 1e-7), 'rotation changes a distance')
    ctx.nt(n > 1)


@M.sub(case(lo=f8, w=pos, n=st.integers(1, 3)), n=12, mult=5, shards=2, rule='always')
def random_offsets(c, ctx):
    np.random.seed(c['seed'] % 2 ** 32)
    lo, hi = c['lo'], c['lo'] + c['w']
    proj = [FunctionProblem(lambda v, j=j: float(v[j]), True) for j in range(c['n'])]
    offs = []
    for _ in range(500):
        j = _ % c['n']
        offs.append(-float(TranslatedProblem.random(proj[j], (lo, hi), c['n']).evaluate(np.zeros(c['n']))))
    check_uniform_reals(np.array(offs), lo - 1e-12, hi + 1e-12, 'random translation offsets')
    ctx.nt(True)


@M.sub(case(n=st.integers(1, 5), k=st.integers(1, 5), o=f8), n=150, rule='wrong number of genes')
def rejects(c, ctx):
    x = np.zeros(c['k'])
    nob = FunctionProblem(lambda v: 0.0, True)
    check(raises(ValueError, ScaledProblem, nob, (0, 1)), 'scaling a problem without bounds was accepted')
    t = TranslatedProblem(nob, [c['o']] * c['n'])
    check(not hasattr(t, 'bounds'), 'bounds invented')
    m = MatrixTransformedProblem(nob, np.identity(c['n']))
    if c['n'] != c['k']:
        check(raises((AssertionError, ValueError), t.evaluate, x) and raises((AssertionError, ValueError), m.evaluate, x), '%d genes accepted for %d dimensions', c['k'], c['n'])
    check(str(FitnessOffsetProblem(TranslatedProblem(SpheroidProblem(), [1.0]), 2)) == 'FitnessOffsetProblem(TranslatedProblem(SpheroidProblem))', 'name of nested wrappers')
    ctx.nt(c['n'] != c['k'])
