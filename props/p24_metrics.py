from common import *
import matplotlib
matplotlib.use('Agg')
from matplotlib import pyplot as plt
from leap_ec import probe
from leap_ec.multiobjective.probe import ParetoPlotProbe2D
from multi import MO

M = Module('P24')
M.assumptions = ['Gene values are multiples of 1/512 up to 100 in magnitude, so variances below 1e-8 are exactly zero.']

gene = st.one_of(st.integers(-3, 3), st.sampled_from([0.0, 1 / 512, 2 / 512]), st.integers(-800, 800).map(lambda i: i / 8))


@st.composite
def genomes(draw, minlen=1):
    L = draw(st.integers(minlen, 5))
    n = draw(upto(1, 7, 20))
    g = draw(st.lists(st.lists(gene, min_size=L, max_size=L), min_size=n, max_size=n))
    for j in draw(st.lists(st.integers(0, L - 1), max_size=3)):
        for r in g:
            r[j] = g[0][j]
    rep = draw(upto(1, 1, 20, 40))        # now and then a long genome
    return [r * rep for r in g]


class Shift(IdentityDecoder):
    def decode(self, genome, *a, **k):
        return np.asarray(genome) * 2 + 1


def mk(gs, dt=float, fits=None, dec=None):
    prob = FunctionProblem(lambda p: float(np.sum(p)), True)
    pop = [Individual(np.array(g, dtype=dt), decoder=dec or IdentityDecoder(), problem=prob) for g in gs]
    for k, i in enumerate(pop):
        i.fitness = fits[k] if fits else float(np.sum(i.genome))
    return pop


@M.sub(case(g=genomes(), perm=st.integers(0, 10 ** 6), ints=bools), n=1200, shards=2, rule='at least three genomes that are not all equal')
def metrics(c, ctx):
    gs = [[int(x) for x in r] for r in c['g']] if c['ints'] else c['g']
    pop = mk(gs, int if c['ints'] else float)
    before = [snap(i) for i in pop]
    n, L = len(gs), len(gs[0])
    d = sum(sum((a - b) ** 2 for a, b in zip(x, y)) for x in gs for y in gs)
    var = 0.0
    fix = 0
    for j in range(L):
        col = [float(r[j]) for r in gs]
        m = sum(col) / n
        var += sum((x - m) ** 2 for x in col) / n
        fix += len(set(col)) == 1
    order = np.random.RandomState(c['perm']).permutation(n)
    for p in (pop, [pop[i] for i in order]):
        check(close(probe.pairwise_squared_distance_metric(p), d, 1e-8, 1e-6), 'pairwise distance %r, expected %r', probe.pairwise_squared_distance_metric(p), d)
        check(close(probe.sum_of_variances_metric(p), var, 1e-8, 1e-6), 'sum of variances %r, expected %r', probe.sum_of_variances_metric(p), var)
        check(int(probe.num_fixated_metric(p)) == fix, 'fixated genes %r, expected %r', probe.num_fixated_metric(p), fix)
    check([snap(i) for i in pop] == before, 'metric modified the population')
    # a gene everybody shares is fixated, whatever its value
    third = mk([[float(c['perm'] % 1000) / 30 + 0.1, float(i)] for i in range(n)])
    check(int(probe.num_fixated_metric(third)) == (2 if n == 1 else 1), 'genes %r: %r fixated', [i.genome.tolist() for i in third], probe.num_fixated_metric(third))
    ctx.nt(n > 2 and d > 0)
    ctx.label('some genes fixated', 0 < fix < L)


@M.sub(case(hist=st.lists(genomes(2), min_size=1, max_size=5), again=upto(1, 1, 8, 25), modulo=st.integers(1, 3), start=st.integers(0, 3), kind=st.sampled_from(['metrics', 'fitness']),
            xval=bools, lims=bools, pre=st.integers(0, 2), second=bools, reset=st.sampled_from([None, None, 1, 2, 3]), m=st.integers(3, 6)), n=40, mult=6, shards=4, rule='at least two measured steps')
def series(c, ctx):
    cx = {'leap': {'generation': 0}}
    fig, ax = plt.subplots()
    try:
        count = [100]

        def xv():
            count[0] += 10
            return count[0]
        others = [ax.plot([1, 2 + k], [3 - k, 4])[0] for k in range(c['pre'])]        # the user's own lines
        kw = dict(ax=ax, modulo=c['modulo'], context=cx, x_axis_value=xv if c['xval'] else None)
        if c['lims']:
            kw.update(xlim=(0, 10), ylim=(0, 1))
        if c['kind'] == 'metrics':
            fs = [lambda p: max(i.fitness for i in p), len, lambda p: float(p[0].genome[0]), lambda p: float(p[-1].genome[-1]), lambda p: min(i.fitness for i in p), lambda p: 7.5][:c['m']]
            pr = probe.PopulationMetricsPlotProbe(metrics=fs, **kw)
        else:
            fs = [lambda p: max(i.fitness for i in p)]
            pr = probe.FitnessPlotProbe(**kw)
        xs, ys = [], [[] for _ in fs]
        zs, measured = [], 0
        if c['second']:                # another probe on the same axes
            pr2 = probe.PopulationMetricsPlotProbe(metrics=[lambda p: 900.0 + len(p)], ax=ax, context=cx)
        for k, g in enumerate(c['hist'] * c['again']):
            step = c['start'] + k
            cx['leap']['generation'] = step
            pop = mk(g)
            before = [snap(i) for i in pop]
            lst = list(pop)
            if k == c['reset']:
                pr.reset()
                xs, ys = [], [[] for _ in fs]
            out = pr(lst)
            check(out is lst and same_list(lst, pop) and [snap(i) for i in pop] == before, 'plot probe interfered with the population')
            if c['second']:
                pr2(pop)
                zs.append((step, 900.0 + len(pop)))
            if step % c['modulo'] == 0:
                measured += 1
                xs.append(100 + 10 * measured if c['xval'] else step)
                for y, f in zip(ys, fs):
                    y.append(float(f(pop)))
        for k, o in enumerate(others):
            check([float(v) for v in o.get_xdata()] == [1, 2 + k] and [float(v) for v in o.get_ydata()] == [3 - k, 4], 'a line that was on the axes before was changed')
        drawn = [([float(v) for v in l.get_xdata()], [float(v) for v in l.get_ydata()]) for l in ax.lines if not any(l is o for o in others)]
        if c['second']:
            extra = ([float(x) for x, _ in zs], [y for _, y in zs])
            check(extra in drawn, 'the second probe on the axes drew %r, expected %r', drawn, extra)
            drawn.remove(extra)
        drawn = [d for d in drawn if d[0]]
        if xs:
            check(drawn == [([float(x) for x in xs], y) for y in ys], 'lines %r, expected %r', drawn, (xs, ys))
        ctx.label('shared axes', bool(c['pre'] or c['second']))
        ctx.nt(len(xs) > 1)
        ctx.label('unmeasured steps', len(xs) < len(c['hist']) * c['again'])
        ctx.label('more than 50 points', len(xs) > 50)
    finally:
        plt.close('all')


@M.sub(case(hist=st.lists(genomes(2), min_size=1, max_size=4), modulo=st.integers(1, 3), start=st.integers(0, 3), kind=st.sampled_from(['cart', 'sum', 'hist', 'heat']), dec=bools, fit=bools),
       n=40, mult=6, shards=4, rule='at least one measured step followed by another step')
def scatter(c, ctx):
    cx = {'leap': {'generation': 0}}
    fig, ax = plt.subplots()
    try:
        P = {'cart': probe.CartesianPhenotypePlotProbe, 'sum': probe.SumPhenotypePlotProbe, 'hist': probe.HistPhenotypePlotProbe,
             'heat': probe.HeatMapPhenotypeProbe}[c['kind']]
        pr = P(ax=ax, modulo=c['modulo'], context=cx)
        lastp, measured = None, 0
        for k, g in enumerate(c['hist']):
            step = c['start'] + k
            cx['leap']['generation'] = step
            fits = [float(7 * j - k) for j in range(len(g))] if c['fit'] else None
            pop = mk(g, dec=Shift() if c['dec'] else None, fits=fits)
            before = [snap(i) for i in pop]
            lst = list(pop)
            out = pr(lst)
            check(out is lst and same_list(lst, pop) and [snap(i) for i in pop] == before, 'plot probe interfered with the population')
            ph = [[2 * float(x) + 1 for x in r] if c['dec'] else [float(x) for x in r] for r in g]
            if step % c['modulo'] == 0:
                measured += 1
                if c['kind'] == 'cart':
                    lastp = [[r[0], r[1]] for r in ph]
                elif c['kind'] == 'sum':
                    lastp = [[sum(r), fits[j] if fits else float(sum(g[j]))] for j, r in enumerate(ph)]
            if lastp is not None:
                off = ax.collections[0].get_offsets()
                got = [[float(a), float(b)] for a, b in np.asarray(off)]
                check(len(got) == len(lastp) and all(close(a[0], b[0]) and close(a[1], b[1]) for a, b in zip(got, lastp)),
                      'points %r, expected %r', got, lastp)
                (l, r), (b, t) = ax.get_xlim(), ax.get_ylim()
                for x, y in got:
                    check(l <= x <= r and b <= y <= t, 'point %r outside the axes', (x, y))
        ctx.nt(measured >= 1 and len(c['hist']) > 1)
    finally:
        plt.close('all')


class Recorder:
    """Real axes whose contour calls are recorded."""

    def __init__(self, ax):
        self.__dict__.update(real=ax, drawn=[])

    def __getattr__(self, n):
        return getattr(self.real, n)

    def contour(self, *a, **k):
        self.drawn.append([np.array(x, dtype=float) for x in a[:3]])


@M.sub(case(hist=st.lists(st.lists(st.lists(eighths, min_size=3, max_size=3), min_size=1, max_size=6), min_size=1, max_size=4), step=st.integers(1, 3), start=st.integers(0, 3), own=bools, births=bools, mo=st.integers(2, 3)),
       n=40, mult=6, shards=4, rule='at least one measured step followed by another step')
def pareto(c, ctx):
    """The Pareto plot shows the first two objectives of the last measured population."""
    key = 'births' if c['births'] else 'generation'
    cx = {'leap': {key: 0}}
    if c['own']:
        fig, ax = plt.subplots()
    else:
        plt.close('all')
        ax = None
    try:
        pr = ParetoPlotProbe2D(ax=ax, metrics=[], step=c['step'], context=cx)
        ax = ax if ax is not None else plt.gcf().axes[0]
        prob = MO(maximize=(True,) * c['mo'])
        lastp, measured = None, 0
        for k, g in enumerate(c['hist']):
            cx['leap'][key] = c['start'] + k
            pop = [Individual(np.array([0.0]), problem=prob) for _ in g]
            for i, v in zip(pop, g):
                i.fitness = np.array(v[:c['mo']], dtype=float)
            before = [snap(i) for i in pop]
            lst = list(pop)
            out = pr(lst)
            check(out is lst and same_list(lst, pop) and [snap(i) for i in pop] == before, 'plot probe interfered with the population')
            if (c['start'] + k) % c['step'] == 0:
                measured += 1
                lastp = [[float(v[0]), float(v[1])] for v in g]
            got = [[float(a), float(b)] for a, b in np.asarray(ax.collections[0].get_offsets())]
            check(got == (lastp or []), 'points %r, expected %r', got, lastp)
        ctx.nt(measured >= 1 and len(c['hist']) > 1)
        ctx.label('axes created by the probe', not c['own'])
    finally:
        plt.close('all')


@M.sub(case(lo=st.integers(-6, 2), wx=st.integers(1, 4), wy=st.integers(1, 4), gran=st.sampled_from([None, 0.5, 0.75, 1.0]), pad=st.lists(st.integers(-3, 3), max_size=2), b=st.integers(5, 40)), n=25, mult=6, shards=4, rule='a non-square region or hidden dimensions')
def contours(c, ctx):
    """Fitness contours behind the scatter plot show the problem on the grid."""
    fig, ax = plt.subplots()
    try:
        rec = Recorder(ax)
        seen = []

        class F(FunctionProblem):
            bounds = (0.0, float(c['b']))
        f = lambda p: float(p[0]) * 3.0 - float(p[1]) ** 2 + 0.5 * float(sum(p[2:]))
        prob = F(f, True)
        xl, yl = (float(c['lo']), float(c['lo'] + c['wx'])), (float(c['lo'] + 1), float(c['lo'] + 1 + c['wy']))
        cx = {'leap': {'generation': 0}}
        p = probe.CartesianPhenotypePlotProbe(ax=rec, xlim=xl, ylim=yl, contours=prob, granularity=c['gran'], context=cx, pad=[float(x) for x in c['pad']])
        g = c['gran'] if c['gran'] is not None else c['b'] / 50.0
        x, y = np.arange(xl[0], xl[1], g), np.arange(yl[0], yl[1], g)
        check(len(rec.drawn) == 1, '%d contour plots', len(rec.drawn))
        X, Y, Z = rec.drawn[0]
        want = np.array([[f([a, b] + c['pad']) for a in x] for b in y])
        check(X.shape == Y.shape == Z.shape == want.shape, 'grid %r, expected %r', Z.shape, want.shape)
        check(np.allclose(X, x[None, :]) and np.allclose(Y, y[:, None]), 'grid points')
        check(np.allclose(Z, want), 'contour heights differ from the problem')
        check(np.allclose(ax.get_xlim(), xl) and np.allclose(ax.get_ylim(), yl), 'limits %r %r', ax.get_xlim(), ax.get_ylim())
        pop = mk([[xl[0] - 1, yl[0]], [xl[1], yl[1] + 2]])
        p(pop)
        check(np.allclose(ax.get_xlim(), (xl[0] - 1, xl[1])) and np.allclose(ax.get_ylim(), (yl[0], yl[1] + 2)), 'rescaled limits %r %r', ax.get_xlim(), ax.get_ylim())
        ctx.nt(c['wx'] != c['wy'] or len(c['pad']) > 0)
    finally:
        plt.close('all')


@M.sub(case(n=st.integers(1, 12), lo=st.integers(0, 2), gran=st.integers(1, 3), own=bools), n=20, mult=6, shards=2, rule='at least four points')
def sum_curve(c, ctx):
    """The curve behind the sum plot is the problem's value for each number of ones."""
    plt.close('all')
    fig, ax = plt.subplots()
    try:
        lens = []

        def f(p):
            lens.append(len(p))
            return float(sum(p)) ** 2 - 3.0 * float(p[0])
        lo = min(c['lo'], c['n'])
        probe.SumPhenotypePlotProbe(ax=ax, xlim=(lo, c['n']), ylim=(-3, c['n'] ** 2), problem=FunctionProblem(f, True), granularity=c['gran'], context={'leap': {'generation': 0}})
        xs = list(range(lo, c['n'] + 1, c['gran']))
        want = [[float(k), float(k) ** 2 - (3.0 if k else 0.0)] for k in xs]
        got = [[float(a), float(b)] for a, b in ax.lines[0].get_xydata()]
        check(got == want, 'curve %r, expected %r', got, want)
        check(set(lens) == {c['n']}, 'bit strings of lengths %r, expected %d', set(lens), c['n'])
        check(np.allclose(ax.get_ylim(), (-3, c['n'] ** 2)), 'limits %r', ax.get_ylim())
        ctx.nt(len(xs) >= 4)
    finally:
        plt.close('all')
