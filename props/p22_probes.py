from common import *
import contextlib
import csv as _csv
import io
import itertools
from leap_ec import probe, util
from leap_ec.individual import RobustIndividual

M = Module('P22')

hist = st.one_of(st.lists(st.lists(any_fit, min_size=1, max_size=6), min_size=1, max_size=8),
                 st.lists(st.lists(any_fit, min_size=1, max_size=6), min_size=1, max_size=8),
                 st.lists(st.lists(any_fit, min_size=1, max_size=2), min_size=20, max_size=60),
                 st.lists(st.lists(any_fit, min_size=30, max_size=60), min_size=1, max_size=2))


def best(fs, maximize):
    return max(fs, key=lambda f: score(f, maximize))


def same(a, b):
    return repr(float(a)) == repr(float(b))


@M.sub(case(hist=hist, maximize=bools, header=bools, gens=st.lists(st.integers(0, 99), min_size=10, max_size=10).map(lambda l: l * 6), iterp=bools), n=900, shards=2,
       rule='the best-so-far is not in the last population')
def best_so_far(c, ctx):
    cx = {'leap': {'generation': 0}}
    s = io.StringIO()
    P = probe.BestSoFarIterProbe if c['iterp'] else probe.BestSoFarProbe
    p = P(stream=s, header=c['header'], context=cx)
    check(p.bsf is None, 'best-so-far before anything was seen')
    seen, inds, want, old = [], [], [], None
    for h, g in zip(c['hist'], c['gens']):
        cx['leap']['generation'] = g
        pop = pop_with(h, c['maximize'])
        before = [snap(i) for i in pop]
        lst = list(pop)
        if c['iterp']:
            out = []
            it = p(iter(lst))
            for j in range(len(pop)):
                out.append(next(it))
                seen.append(h[j])
                inds.append(pop[j])
                want.append((g, best(seen, c['maximize'])))
                check(same(p.bsf.fitness, best(seen, c['maximize'])), 'best-so-far %r, seen %r', p.bsf.fitness, seen)
        else:
            out = p(lst)
            check(out is lst, 'a different list came out')
            seen += h
            inds += pop
            want.append((g, best(seen, c['maximize'])))
            check(same(p.bsf.fitness, best(seen, c['maximize'])), 'best-so-far %r, seen %r', p.bsf.fitness, seen)
        check(same_list(out, pop), 'probe changed the population')
        check([snap(i) for i in pop] == before, 'probe modified an individual')
        check(any(p.bsf is i for i in inds), 'best-so-far was never seen')
        if old is not None and p.bsf is not old:
            check(score(p.bsf.fitness, c['maximize']) > score(old.fitness, c['maximize'])
                  or math.isnan(p.bsf.fitness), 'best-so-far replaced without improvement')
        old = p.bsf
    rows = list(_csv.reader(io.StringIO(s.getvalue())))
    if c['header']:
        check(rows[:1] == [['step', 'bsf']], 'header %r', rows[:1])
        rows = rows[1:]
    check(len(rows) == len(want), '%d rows, expected %d', len(rows), len(want))
    for r, (g, f) in zip(rows, want):
        check(int(r[0]) == g and same(r[1], f), 'row %r, expected %r', r, (g, f))
    ctx.nt(not any(p.bsf is i for i in pop))


@M.sub(case(fits=st.lists(any_fit, min_size=1, max_size=8), maximize=bools), n=500, rule='at least three members')
def best_of_gen(c, ctx):
    pop = pop_with(c['fits'], c['maximize'])
    b = probe.best_of_gen(list(pop))
    check(same(c['fits'][idx_of(b, pop)], best(c['fits'], c['maximize'])), 'best of %r is %r', c['fits'], b.fitness)
    check(raises(AssertionError, lambda: probe.best_of_gen([])), 'best of nobody')
    ctx.nt(len(pop) > 2)


@M.sub(case(fits=lists_upto(finite_fit, 1, 6, 40, 260), prefix=st.text('ab >:', max_size=4), what=st.sampled_from(['len', 'best', 'sum']),
            times=st.integers(1, 3)), n=400, rule='a prefix and at least two members')
def printing(c, ctx):
    pop = pop_with(c['fits'])
    before = [snap(i) for i in pop]
    f = {'len': len, 'best': lambda p: max(p).fitness, 'sum': lambda p: sum(i.fitness for i in p)}[c['what']]
    s = io.StringIO()
    lst = list(pop)
    for _ in range(c['times']):
        out = probe.print_probe(lst, probe=f, stream=s, prefix=c['prefix'])
        check(out is lst and same_list(lst, pop), 'print_probe changed the population')
    check(s.getvalue() == (c['prefix'] + str(f(pop))) * c['times'], 'print_probe wrote %r', s.getvalue())
    s = io.StringIO()
    it = probe.print_individual(iter(lst), prefix=c['prefix'], stream=s)
    for j, i in enumerate(pop):
        check(next(it) is i, 'print_individual changed the stream')
        check(s.getvalue() == ''.join(c['prefix'] + str(x) + '\n' for x in pop[:j + 1]), 'print_individual wrote %r', s.getvalue())
    o = io.StringIO()
    with contextlib.redirect_stdout(o):
        util.print_population(lst, 17)
    check(o.getvalue() == ''.join('17 %s %s\n' % (i.genome, i.fitness) for i in pop), 'print_population wrote %r', o.getvalue())
    o = io.StringIO()
    with contextlib.redirect_stdout(o):
        util.print_list(lst)
    check(o.getvalue() == '[' + ', '.join(str(i) for i in pop) + ']\n', 'print_list wrote %r', o.getvalue())
    check([snap(i) for i in pop] == before and same_list(lst, pop), 'printing modified an individual')
    ctx.nt(c['prefix'] and len(pop) > 1)


@M.sub(case(fits=st.lists(finite_fit, min_size=1, max_size=6)), n=100, rule='at least two members')
def individual_text(c, ctx):
    """str() of an individual shows its identifier and fitness."""
    for f, i in zip(c['fits'], pop_with(c['fits'])):
        t = str(i)
        check(str(i.uuid) in t and str(f) in t, 'str() is %r', t)
    ctx.nt(len(c['fits']) > 1)


ALL = ['stats', 'attrs', 'attrs_best', 'metrics', 'fitness', 'cart', 'cart_contours', 'sum', 'hist', 'heat', 'bsf', 'print', 'pareto']


@M.sub(case(which=st.lists(st.sampled_from(ALL), min_size=1, max_size=3, unique=True), g=st.lists(st.lists(st.integers(-40, 40).map(lambda i: i / 8), min_size=2, max_size=2), min_size=1, max_size=9), steps=st.integers(1, 3), maximize=bools, dup=bools, view=bools),
       n=60, shards=4, mult=8, rule='at least two members and a plotting probe')
def hands_off(c, ctx):
    """Every probe hands the very same list on, with every individual as it was."""
    import matplotlib
    matplotlib.use('Agg')
    from matplotlib import pyplot as plt
    from leap_ec.multiobjective.probe import ParetoPlotProbe2D
    cx = {'leap': {'generation': 0}}
    try:
        def build(w):
            out = io.StringIO()
            ax = plt.subplots()[1] if w not in ('stats', 'attrs', 'attrs_best', 'bsf', 'print') else None
            if w == 'stats':
                return probe.FitnessStatsCSVProbe(stream=out, context=cx, extra_metrics={'d': probe.pairwise_squared_distance_metric, 'v': probe.sum_of_variances_metric, 'f': probe.num_fixated_metric})
            if w in ('attrs', 'attrs_best'):
                return probe.AttributesCSVProbe(stream=out, do_dataframe=True, do_fitness=True, do_genome=True, best_only=w == 'attrs_best', context=cx)
            if w == 'bsf':
                return probe.BestSoFarProbe(stream=out, context=cx)
            if w == 'print':
                return probe.print_probe(probe=len, stream=out)
            if w == 'metrics':
                return probe.PopulationMetricsPlotProbe(ax=ax, metrics=[probe.pairwise_squared_distance_metric, probe.num_fixated_metric], context=cx)
            if w == 'fitness':
                return probe.FitnessPlotProbe(ax=ax, context=cx)
            if w == 'cart_contours':
                prob = FunctionProblem(lambda p: float(np.sum(p)), True)
                return probe.CartesianPhenotypePlotProbe(ax=ax, xlim=(-1, 1), ylim=(-1, 1), contours=prob, granularity=0.5, context=cx)
            if w == 'pareto':
                return ParetoPlotProbe2D(ax=ax, metrics=[], context=cx)
            P = {'cart': probe.CartesianPhenotypePlotProbe, 'sum': probe.SumPhenotypePlotProbe, 'hist': probe.HistPhenotypePlotProbe, 'heat': probe.HeatMapPhenotypeProbe}[w]
            return P(ax=ax, context=cx)
        which = [w for w in c['which'] if w != 'pareto'] if len(c['which']) > 1 else c['which']
        probes = [build(w) for w in which]
        if which == ['pareto']:
            from multi import make
            inds = make(c['g'], [True, False])
        else:
            prob = FunctionProblem(lambda p: float(np.sum(p)), c['maximize'])
            inds = [Individual(np.array(v[::-1])[::-1] if c['view'] else np.array(v), decoder=IdentityDecoder(), problem=prob) for v in c['g']]
            for i in inds:
                i.fitness = float(i.genome[0])
        pop = inds + inds[:1] if c['dup'] else list(inds)
        keep = list(pop)
        before = [(snap(i), sorted(i.__dict__)) for i in pop]
        rs, ns = __import__('random').getstate(), np.random.get_state()
        for g in range(c['steps']):
            cx['leap']['generation'] = g
            for w, p in zip(which, probes):
                res = p(pop)
                check(res is pop and same_list(pop, keep), '%s probe did not hand the same population on', w)
                check([(snap(i), sorted(i.__dict__)) for i in pop] == before, '%s probe changed an individual', w)
        check(cx == {'leap': {'generation': c['steps'] - 1}}, 'context changed to %r', cx)
        check(__import__('random').getstate() == rs and all(np.array_equal(a, b) for a, b in zip(np.random.get_state(), ns)), 'a probe consumed random numbers')
        ctx.nt(len(inds) > 1 and any(w not in ('stats', 'attrs', 'attrs_best', 'bsf', 'print') for w in which))
        for w in which:
            ctx.label(w)
    finally:
        plt.close('all')
