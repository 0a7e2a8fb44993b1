from common import *
import warnings
from leap_ec.problem import ConstantProblem
from leap_ec.real_rep.problems import (
    AckleyProblem, CosineFamilyProblem, GaussianProblem, GriewankProblem, LangermannProblem, LunacekProblem, NoisyQuarticProblem, ParabaloidProblem,
    QuadraticFamilyProblem, RastriginProblem, RosenbrockProblem, SchwefelProblem, ShekelProblem, SpheroidProblem, StepProblem, WeierstrassProblem)

M = Module('P25')
M.assumptions = ['Values are compared within 1e-9 of the summed magnitude of the terms of the formula.',
                 "Lunacek's cosine term is centred on mu_1 and the Weierstrass sum has kmax terms, which is what the documentation's prose and parameter descriptions say.",
                 'The noisy quartic is compared in mean, and its noise level is only required to lie between one N(0,1) term per evaluation and one per dimension.']

TAU = 2 * math.pi
fs = math.fsum


def p_sphere(x, **k):
    t = [v * v for v in x]
    return fs(t), fs(t)


def p_rastrigin(x, a=1.0, **k):
    t = [a * len(x)] + [v * v for v in x] + [-a * math.cos(TAU * v) for v in x]
    return fs(t), fs(map(abs, t))


def p_rosenbrock(x, **k):
    t = []
    for u, v in zip(x, x[1:]):
        t += [100 * (v - u * u) ** 2, (u - 1) ** 2]
    return fs(t), fs(t) + fs([100 * (abs(v) + u * u) ** 2 for u, v in zip(x, x[1:])])


def p_step(x, **k):
    return fs(math.floor(v) for v in x), 1


def p_griewank(x, **k):
    pr = 1.0
    for i, v in enumerate(x, 1):
        pr *= math.cos(v / math.sqrt(i))
    s = fs(v * v for v in x) / 4000
    return s - pr + 1, s + 2 + fs(map(abs, x))


def p_ackley(x, a=20, b=0.2, c=TAU, **k):
    d = len(x)
    t1 = -a * math.exp(-b * math.sqrt(fs(v * v for v in x) / d))
    t2 = math.exp(fs(math.cos(c * v) for v in x) / d)
    return t1 - t2 + a + math.e, abs(a) + 6 + abs(t1) + 3 * fs(abs(c * v) for v in x)


def p_weier(x, kmax=20, a=0.5, b=3, **k):
    t1 = fs(a ** j * math.cos(TAU * b ** j * (v + 0.5)) for v in x for j in range(kmax))
    t2 = fs(a ** j * math.cos(math.pi * b ** j) for j in range(kmax))
    return t1 - len(x) * t2, fs(abs(a) ** j * (1 + 1e-5 * abs(b) ** j) for j in range(kmax)) * (len(x) + 1)


LA = ((3, 5), (5, 2), (2, 1), (1, 4), (7, 9))


def p_langer(x, m=5, c=(1, 2, 5, 2, 3), a=LA, **k):
    t = []
    for i in range(m):
        s = fs((v - w) ** 2 for v, w in zip(x, a[i]))
        t.append(-c[i] * math.exp(-s / math.pi) * math.cos(math.pi * s))
    return fs(t), 1 + fs(abs(v) for v in c) * 100


def p_lunacek(x, N=None, d=1.0, mu_1=2.5, mu_2=None, s=None, **k):
    if s is None:
        s = 1 - 1 / (2 * math.sqrt(N + 20) - 8.2)
    if mu_2 is None:
        mu_2 = -math.sqrt((mu_1 ** 2 - d) / s)
    s1 = fs((v - mu_1) ** 2 for v in x)
    s2 = d * len(x) + s * fs((v - mu_2) ** 2 for v in x)
    w = 10 * fs(1 - math.cos(TAU * (v - mu_1)) for v in x)
    return min(s1, s2) + w, abs(s1) + abs(s2) + w + 20


def p_schwefel(x, alpha=418.982887, **k):
    t = [-v * math.sin(math.sqrt(abs(v))) for v in x]
    return fs(t) + alpha * len(x), fs(map(abs, t)) + abs(alpha) * len(x) + fs(abs(v) ** 1.5 for v in x)


def p_gauss(x, width=1, height=1, **k):
    v = height * math.exp(-fs((u / width) ** 2 for u in x))
    return v, abs(v) * 100


def p_cosine(x, alpha, global_optima_counts, local_optima_counts, **k):
    n = len(global_optima_counts)
    t = []
    for v, g, l in zip(x, global_optima_counts, local_optima_counts):
        t += [-math.cos((g - 1) * TAU * v), -alpha * math.cos((g - 1) * TAU * l * v)]
    return fs(t) / (2 * n), (1 + abs(alpha)) * 200


def p_shekel(x, k=500, c=tuple(range(1, 26)), **kw):
    t = []
    for j in range(25):
        ax, ay = -32 + 16 * (j % 5), -32 + 16 * (j // 5)
        t.append(1 / (c[j] + (x[0] - ax) ** 6 + (x[1] - ay) ** 6))
    v = 1 / (1 / k + fs(t))
    return v, v


f8 = st.integers(-800, 800).map(lambda i: i / 8)
par = st.integers(1, 40).map(lambda i: i / 8)
FUNS = {
    'sphere': (SpheroidProblem, p_sphere, False, True, 5.12),
    'rastrigin': (RastriginProblem, p_rastrigin, False, True, 5.12),
    'rosenbrock': (RosenbrockProblem, p_rosenbrock, False, True, 2.048),
    'step': (StepProblem, p_step, True, True, 5.12),
    'griewank': (GriewankProblem, p_griewank, False, False, 600),
    'ackley': (AckleyProblem, p_ackley, False, False, 32.768),
    'weier': (WeierstrassProblem, p_weier, False, False, 0.5),
    'langer': (LangermannProblem, p_langer, False, False, 10),
    'lunacek': (LunacekProblem, p_lunacek, False, False, 5),
    'schwefel': (SchwefelProblem, p_schwefel, False, False, 512),
    'gauss': (GaussianProblem, p_gauss, True, False, 3),
    'cosine': (CosineFamilyProblem, p_cosine, False, False, 1),
    'shekel': (ShekelProblem, p_shekel, False, True, 65.536),
}


@st.composite
def cases(draw, params=True):
    f = draw(st.sampled_from(sorted(FUNS)))
    kw = {}
    given_par = draw(st.integers(0, 3)) > 0 and params
    n = draw(st.integers(1, 9))
    if f == 'langer':
        n = 2
        if given_par:
            n, m = draw(st.integers(1, 4)), draw(upto(1, 5, 8, 20))
            kw = dict(m=m, c=draw(st.lists(f8, min_size=m, max_size=m)),
                      a=[draw(st.lists(f8.map(lambda v: v / 10), min_size=n, max_size=n)) for _ in range(m)])
    elif f == 'shekel':
        n = 2
        if given_par:
            kw = dict(k=draw(st.integers(1, 900)), c=draw(st.lists(st.integers(1, 40), min_size=25, max_size=25)))
    elif f == 'cosine':
        kw = dict(alpha=draw(par), global_optima_counts=draw(st.lists(st.integers(2, 5), min_size=n, max_size=n)),
                  local_optima_counts=draw(st.lists(st.integers(1, 5), min_size=n, max_size=n)))
    elif f == 'lunacek':
        n = max(n, 2)       # the default s is negative for N = 1
        kw = dict(N=n)
        if given_par:
            d = draw(par)
            kw.update(d=d, mu_1=draw(st.sampled_from([1, -1])) * (math.sqrt(d) + draw(par)))
            if draw(bools):
                kw.update(mu_2=draw(st.one_of(f8, st.just(0.0))) / 10)
                if draw(st.integers(0, 3)) == 0:
                    kw.update(s=0.0)
            if 's' not in kw and draw(bools):
                kw.update(s=draw(par))
    elif given_par:
        if f == 'rastrigin':
            kw = dict(a=draw(st.integers(0, 160)) / 8)
        elif f == 'ackley':
            kw = dict(a=draw(st.integers(1, 300)) / 8, b=draw(par) / 4, c=draw(st.integers(1, 100)) / 8)
        elif f == 'weier':
            kw = dict(kmax=draw(upto(1, 9, 25, 45)), a=draw(st.integers(1, 9)) / 10, b=draw(st.integers(1, 4)))
        elif f == 'schwefel':
            kw = dict(alpha=draw(f8))
        elif f == 'gauss':
            kw = dict(width=draw(par), height=draw(f8))
    hi = FUNS[f][4]
    inb = st.integers(-10 ** 6, 10 ** 6).map(lambda i: i / 10 ** 6 * hi)
    x = draw(st.lists(st.one_of(inb, st.integers(-3, 3).map(float), st.integers(-8, 8).map(lambda i: i / 4), f8, inb.map(lambda v: v * 2.5)),
                      min_size=n, max_size=n))
    return dict(f=f, kw=kw, x=x)


def build(c, **extra):
    return FUNS[c['f']][0](**c['kw'], **extra)


@M.sub(case(c=cases(), mx=st.sampled_from([None, True, False]), ints=st.integers(0, 3), perm=st.integers(0, 999)), n=3000, shards=4,
       rule='more than one dimension and not the origin')
def formula(c, ctx):
    d = c['c']
    cls, ref, dmax, lists_ok, hi = FUNS[d['f']]
    if d['f'] == 'langer' and d['kw']:
        d['kw']['c'], d['kw']['a'] = tuple(d['kw']['c']), tuple(map(tuple, d['kw']['a']))
    p = build(d) if c['mx'] is None else build(d, maximize=c['mx'])
    check(bool(p.maximize) == (dmax if c['mx'] is None else c['mx']), '%s: direction %r', d['f'], p.maximize)
    check(p.worse_than(1.0, 2.0) == bool(p.maximize) and p.worse_than(2.0, 1.0) == (not p.maximize), '%s: wrong comparison', d['f'])
    xs = [float(round(v)) for v in d['x']] if c['ints'] == 0 else d['x']
    x = np.array(xs, dtype=int if c['ints'] == 0 else float)
    keep = x.copy()
    want, scale = ref(xs, **d['kw'])
    tol = 1e-9 * (abs(scale) + (1e-290 if d['f'] == 'gauss' else 1e-3))
    for again in range(2):
        got = p.evaluate(x)
        check(np.ndim(got) == 0 and math.isfinite(got), '%s(%r) returned %r', d['f'], xs, got)
        check(abs(float(got) - want) <= tol, '%s(%r; %r) returned %r, the formula gives %r', d['f'], xs, d['kw'], float(got), want)
    check(np.array_equal(x, keep) and x.dtype == keep.dtype, '%s changed the phenome', d['f'])
    many = p.evaluate_multiple([x, x])
    check(len(many) == 2 and all(abs(float(v) - want) <= tol for v in many), '%s: evaluate_multiple gives %r', d['f'], many)
    if lists_ok:
        check(abs(float(p.evaluate(list(xs))) - want) <= tol, '%s(list) returned %r, expected %r', d['f'], p.evaluate(list(xs)), want)
    else:
        try:
            v = p.evaluate(list(xs))
        except ValueError:
            v = want
        check(abs(float(v) - want) <= tol, '%s(list) returned %r, expected %r', d['f'], v, want)
    ctx.nt(len(xs) > 1 and any(xs))
    ctx.label(d['f'], True)


@M.sub(case(f=st.sampled_from(sorted(set(FUNS) - {'langer', 'shekel'})), n=st.sampled_from([17, 40, 66, 101, 130, 260, 520]), scale=st.sampled_from([1.0, 1.0, 0.01, 2.0]),
            last=bools), n=250, shards=2, rule='always (17 to 520 dimensions)')
def high_dimensional(c, ctx):
    cls, ref, dmax, lists_ok, hi = FUNS[c['f']]
    rs = np.random.RandomState(c['seed'])
    n = c['n']
    x = rs.uniform(-hi, hi, n) * c['scale']
    if c['last']:
        x[:-1] = 0.0
    kw = {}
    if c['f'] == 'lunacek':
        kw = dict(N=n)
    elif c['f'] == 'cosine':
        kw = dict(alpha=1.5, global_optima_counts=rs.randint(2, 6, n).tolist(), local_optima_counts=rs.randint(1, 6, n).tolist())
    elif c['f'] == 'gauss':
        kw = dict(width=100.0)
    p = cls(**kw)
    want, scale = ref(x.tolist(), **kw)
    got = p.evaluate(x)
    check(np.ndim(got) == 0 and math.isfinite(got) and abs(float(got) - want) <= 1e-9 * (abs(scale) + 1e-3), '%s in %d dimensions returned %r, the formula gives %r', c['f'], n, got, want)
    if lists_ok:
        got = p.evaluate(x.tolist())
        check(abs(float(got) - want) <= 1e-9 * (abs(scale) + 1e-3), '%s of a list of %d returned %r, the formula gives %r', c['f'], n, got, want)
    ctx.nt()


OPT = {   # optimum location, value, tolerance (all minima except gauss)
    'sphere': lambda n: (np.zeros(n), 0.0, 1e-12),
    'rastrigin': lambda n: (np.zeros(n), 0.0, 1e-9),
    'rosenbrock': lambda n: (np.ones(n), 0.0, 1e-12),
    'griewank': lambda n: (np.zeros(n), 0.0, 1e-12),
    'ackley': lambda n: (np.zeros(n), 0.0, 1e-9),
    'weier': lambda n: (np.zeros(n), 0.0, 1e-6),
    'schwefel': lambda n: (np.full(n, 420.9687), 0.0, 1e-3 * n),
    'lunacek': lambda n: (np.full(n, 2.5), 0.0, 1e-9),
    'gauss': lambda n: (np.zeros(n), 1.0, 1e-12),
    'cosine': lambda n: (np.zeros(n), None, 1e-9),
    'shekel': lambda n: (np.array([-31.97833, -31.97833]), 0.998003838, 1e-6),
    'langer': lambda n: (np.array([2.00299219, 1.006096]), -5.1621259, 1e-5),
}
BOUNDS = {'sphere': (-5.12, 5.12), 'rastrigin': (-5.12, 5.12), 'rosenbrock': (-2.048, 2.048), 'step': (-5.12, 5.12), 'griewank': (-600, 600),
          'ackley': (-32.768, 32.768), 'weier': (-.5, .5), 'langer': (0, 10), 'lunacek': (-5, 5), 'schwefel': (-512, 512), 'gauss': (-3, 3),
          'cosine': (0, 1), 'shekel': (-65.536, 65.536)}


@M.sub(case(c=cases(params=False), pts=st.lists(st.lists(st.integers(0, 10 ** 6), min_size=9, max_size=9), min_size=1, max_size=6), near=bools), n=1200, shards=3,
       rule='a point other than the optimum is compared')
def optimum(c, ctx):
    d = c['c']
    f, n = d['f'], len(d['x'])
    p = build(d)
    check(tuple(float(b) for b in p.bounds) == BOUNDS[f], '%s bounds %r', f, p.bounds)
    if f not in OPT:
        ctx.nt(False)
        return
    x0, v0, tol = OPT[f](n)
    if f == 'cosine':
        v0 = -(1 + d['kw']['alpha']) / 2
    got = float(p.evaluate(x0))
    check(abs(got - v0) <= tol, '%s at its optimum %r is %r, documented %r', f, x0.tolist(), got, v0)
    lo, hi = BOUNDS[f]
    for q in c['pts']:
        x = np.array([lo + (hi - lo) * v / 10 ** 6 for v in q[:n]])
        if c['near']:
            x = np.clip(x0 + (x - (lo + hi) / 2) * 1e-3, lo, hi)
        v = float(p.evaluate(x))
        if p.maximize:
            check(v <= v0 + tol, '%s is better at %r (%r) than at its optimum', f, x.tolist(), v)
        else:
            check(v >= v0 - tol, '%s is better at %r (%r) than at its optimum', f, x.tolist(), v)
        ctx.nt(True)


@M.sub(case(x=st.one_of(st.lists(st.integers(-10, 10).map(lambda i: i / 8), min_size=1, max_size=6), st.lists(st.integers(-10, 10).map(lambda i: i / 8), min_size=1, max_size=6),
                       st.tuples(st.sampled_from([60, 140, 280]), st.integers(1, 10)).map(lambda t: [0.0] * t[0] + [t[1] / 8])), n=st.just(600)), n=40, shards=2, mult=8, rule='non-zero phenome')
def noisy(c, ctx):
    np.random.seed(c['seed'] % 2 ** 32)
    import random
    random.seed(c['seed'])
    x = np.array(c['x'])
    d = len(x)
    mean = fs(i * v ** 4 for i, v in enumerate(c['x'], 1))
    p = NoisyQuarticProblem()
    check(p.maximize is False and tuple(p.bounds) == (-1.28, 1.28), 'direction or bounds')
    ys = np.array([p.evaluate(x if k % 2 else list(c['x'])) for k in range(c['n'])])
    check(np.all(np.isfinite(ys)), 'non-finite value')
    check(abs(ys.mean() - mean) <= 7 * math.sqrt(d / c['n']), 'mean of %d evaluations %g, expected %g', c['n'], ys.mean(), mean)
    sd = ys.std()
    check(0.75 <= sd <= 1.3 * math.sqrt(d), 'noise standard deviation %g in %d dimensions', sd, d)
    check(len(set(ys.tolist())) == c['n'], 'the same noise twice')
    check(x.tolist() == c['x'], 'phenome changed')
    ctx.nt(any(c['x']))


@st.composite
def quads(draw):
    n = draw(st.integers(1, 5))
    q = draw(upto(1, 5, 18, 34))
    vec = st.lists(f8.map(lambda v: v / 10), min_size=n, max_size=n)
    return dict(n=n, diags=[draw(st.lists(st.integers(-20, 40).map(lambda i: i / 4), min_size=n, max_size=n)) for _ in range(q)],
                offs=[draw(vec) for _ in range(q)], fit=draw(st.lists(f8, min_size=q, max_size=q)),
                x=draw(st.one_of(vec, st.integers(0, q - 1))), rot=draw(st.lists(bools, min_size=q, max_size=q)))


@M.sub(case(c=quads(), mx=st.sampled_from([None, True, False])), n=800, shards=2, rule='at least two basins')
def quadratic(c, ctx):
    d = c['c']
    n, rs = d['n'], np.random.RandomState(c['seed'])
    rots = [np.linalg.qr(rs.normal(size=(n, n)))[0] if r else np.identity(n) for r in d['rot']]
    diags = [np.diag(v) for v in d['diags']]
    x = np.array(d['offs'][d['x']] if isinstance(d['x'], int) else d['x'], dtype=float)
    vals = []
    for dg, r, o, v in zip(d['diags'], rots, d['offs'], d['fit']):
        z = [fs(r[i][j] * (x[j] - o[j]) for j in range(n)) for i in range(n)]
        vals.append(fs(dg[i] * z[i] ** 2 for i in range(n)) + v)
    kw = {} if c['mx'] is None else dict(maximize=c['mx'])
    p = QuadraticFamilyProblem(diags, rots, [np.array(o) for o in d['offs']], d['fit'], **kw)
    check(p.num_basins == len(vals) and p.dimensions == n, 'basins %r dimensions %r', p.num_basins, p.dimensions)
    check(bool(p.maximize) == bool(c['mx']), 'direction %r', p.maximize)
    tol = 1e-7
    check(abs(float(p.evaluate(x)) - min(vals)) <= tol, 'quadratic family gives %r, formula %r', p.evaluate(x), min(vals))
    b = ParabaloidProblem(diags[0], rots[0], **kw)
    z = rots[0] @ x
    check(abs(float(b.evaluate(x)) - fs(d['diags'][0][i] * z[i] ** 2 for i in range(n))) <= tol, 'parabaloid value')
    check(bool(b.maximize) == bool(c['mx']), 'direction of parabaloid')
    ctx.nt(len(vals) > 1)


@M.sub(case(n=st.integers(1, 6), basins=upto(1, 7, 20, 40), g=upto(0, 7, 20), pts=st.lists(st.lists(f8, min_size=6, max_size=6), min_size=1, max_size=5),
            w=st.tuples(par, par), o=st.tuples(f8, f8), v=st.tuples(par, par), default=bools), n=500, shards=2, rule='more basins than global optima, at least one global optimum')
def generated(c, ctx):
    np.random.seed(c['seed'] % 2 ** 32)
    g = min(c['g'], c['basins'])
    w, o, v = [tuple(sorted(t)) for t in (c['w'], c['o'], c['v'])]
    if c['default']:
        w, o, v = (1, 5), (-10, 10), (10, 100)
        p = QuadraticFamilyProblem.generate(c['n'], c['basins'], num_global_optima=g)
    else:
        p = QuadraticFamilyProblem.generate(c['n'], c['basins'], num_global_optima=g, width_bounds=w, offset_bounds=o, fitness_offset_bounds=v)
    check(p.num_basins == c['basins'] and p.dimensions == c['n'] and not p.maximize, 'shape or direction')
    fit, offs = list(p.fitness_offsets), p.offset_vectors
    check(sum(1 for t in fit if t == 0) >= g and all(t == 0 or v[0] <= t <= v[1] for t in fit), 'basin fitnesses %r for %d global optima in %r', fit, g, v)
    if v[0] > 0:
        check(sum(1 for t in fit if t == 0) == g, 'basin fitnesses %r for %d global optima', fit, g)
    for t in offs:
        check(len(t) == c['n'] and all(o[0] <= u <= o[1] for u in t), 'basin centre %r outside %r', t, o)
    for m, r in zip(p.diagonal_matrices, p.rotation_matrices):
        check(np.count_nonzero(m - np.diag(np.diag(m))) == 0 and all(w[0] <= u <= w[1] for u in np.diag(m)), 'basin widths %r outside %r', m.tolist(), w)
        check(np.allclose(r @ r.T, np.identity(c['n']), atol=1e-7), 'basin rotation not orthonormal')
    for t, u in zip(offs, fit):
        check(float(p.evaluate(np.array(t))) <= u + 1e-9, 'value at a basin centre exceeds its fitness')
    if g:
        check(abs(float(p.evaluate(np.array(p.global_optimum)))) <= 1e-9, 'global optimum has value %r', p.evaluate(p.global_optimum))
    for q in c['pts']:
        x = np.array(q[:c['n']])
        val = float(p.evaluate(x))
        lower = min(fs(((a - b) ** 2) * w[0] for a, b in zip(x, t)) + u for t, u in zip(offs, fit))
        upper = min(fs(((a - b) ** 2) * w[1] for a, b in zip(x, t)) + u for t, u in zip(offs, fit))
        check(lower - 1e-6 * (1 + abs(lower)) <= val <= upper + 1e-6 * (1 + abs(upper)), 'value %r outside what widths %r allow', val, w)
    ctx.nt(0 < g < c['basins'])


@M.sub(case(n=st.integers(2, 5), w=st.tuples(par, par), o=st.tuples(f8, f8), v=st.tuples(par, par), big=st.sampled_from([1, 1, 30])), n=60, shards=2, mult=4, rule='always (60 basins)')
def generated_spread(c, ctx):
    """Every basin is sampled afresh, over the whole of the requested ranges."""
    np.random.seed(c['seed'] % 2 ** 32)
    n, B = c['n'], 60
    w, o, v = [(min(t) * c['big'], max(t) * c['big'] + 1.0) for t in (c['w'], c['o'], c['v'])]
    p = QuadraticFamilyProblem.generate(n, B, num_global_optima=1, width_bounds=w, offset_bounds=o, fitness_offset_bounds=v)
    ws = np.array([np.diag(m) for m in p.diagonal_matrices]).flatten()
    os_ = np.array(p.offset_vectors).flatten()
    fs_ = np.array(list(p.fitness_offsets)[1:])
    for name, vals, (lo, hi) in (('widths', ws, w), ('centres', os_, o), ('fitnesses', fs_, v)):
        check(len(set(vals.tolist())) == len(vals), 'basins share %s', name)
        for q in (0.1, 0.5, 0.9):
            check_binom(int(np.sum(vals <= lo + q * (hi - lo))), len(vals), q, '%s in the lowest %d%% of their range' % (name, q * 100))
    check(len({r.tobytes() for r in p.rotation_matrices}) == B, 'basins share their rotation')
    ctx.nt()


@M.sub(case(v=st.one_of(f8, infs), mx=st.sampled_from([None, True, False]), x=st.lists(f8, max_size=4), dflt=bools), n=200, rule='non-default constant')
def constant(c, ctx):
    kw = {} if c['mx'] is None else dict(maximize=c['mx'])
    if not c['dflt']:
        kw['c'] = c['v']
    p = ConstantProblem(**kw)
    want = 1.0 if c['dflt'] else c['v']
    for x in (np.array(c['x']), c['x'], 'text', None):
        check(p.evaluate(x) == want, 'constant problem gives %r, expected %r', p.evaluate(x), want)
    check(bool(p.maximize) == bool(c['mx']), 'direction')
    ctx.nt(not c['dflt'])


@M.sub(case(x=st.lists(f8.map(lambda v: v / 10), min_size=1, max_size=5), N=st.integers(2, 5), d=st.integers(1, 4)), n=200, rule='dimension mismatch')
def dimensions(c, ctx):
    x = np.array(c['x'])
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        v = LunacekProblem(N=c['N']).evaluate(x)
    check((len(w) > 0) == (len(x) != c['N']), 'Lunacek for N=%d and %d genes: %d warnings', c['N'], len(x), len(w))
    check(abs(float(v) - p_lunacek(c['x'], N=c['N'])[0]) < 1e-6, 'Lunacek value with %d genes', len(x))
    a = [[float(i + j) for j in range(c['d'])] for i in range(3)]
    p = LangermannProblem(m=3, c=(1, 2, 3), a=a)
    if len(x) != c['d']:
        check(raises(ValueError, p.evaluate, x), 'Langermann accepted %d genes for %d dimensions', len(x), c['d'])
    check(raises(ValueError, LangermannProblem, 4, (1, 2, 3, 4), a), 'Langermann accepted a parameter matrix of the wrong shape')
    ctx.nt(len(x) != c['N'])
