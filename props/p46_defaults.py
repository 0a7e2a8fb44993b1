"""Omitting an optional argument means the documented default value.

Differential: a call that omits a generated subset of the optional arguments
must give, from the same random state and on the same inputs, exactly the same
result as the call that spells out every documented default.
"""
from common import *
import io
import random
import matplotlib
matplotlib.use('Agg')
from matplotlib import pyplot as plt
import pandas as pd
from gymnasium import spaces
from fakedask import Client, patched
from leap_ec import ops, probe, util
from leap_ec.algorithm import generational_ea, multi_population_ea, random_search
from leap_ec.binary_rep import problems as bp
from leap_ec.binary_rep.ops import mutate_bitflip
from leap_ec.contrib import analysis
from leap_ec.distrib import asynchronous as dasync
from leap_ec.distrib.individual import DistributedIndividual
from leap_ec.executable_rep import cgp, neural_network as nn, problems as xp, rules
from leap_ec.int_rep.ops import genome_mutate_binomial, mutate_binomial
from leap_ec.landscape_features.exploratory import ELAConvexity
from leap_ec.multiobjective import problems as mp
from leap_ec.multiobjective.nsga2 import generalized_nsga_2
from leap_ec.multiobjective.ops import rank_ordinal_sort
from leap_ec.problem import ConstantProblem
from leap_ec.real_rep import problems as rp
from leap_ec.real_rep.initializers import create_real_vector
from leap_ec.real_rep.ops import genome_mutate_gaussian, mutate_gaussian
from leap_ec.representation import Representation
from leap_ec.segmented_rep import ops as sops
from leap_ec.simple import ea_solve
from multi import MO

M = Module('P46')
M.assumptions = ['The documented defaults are the values in the documented signatures at the pinned commit; streams, contexts, loggers and axes are always given explicitly.',
                 'Two calls are compared from the same state of both random generators.']

T = {}


def target(**defaults):
    def deco(fn):
        T[fn.__name__] = (fn, defaults)
        return fn
    return deco


def pop_of(c, dt=float):
    prob = FunctionProblem(lambda p: float(np.sum(p)), c['mx'])
    pop = [Individual(np.array(g, dtype=dt), problem=prob) for g in c['g']]
    for i, f in zip(pop, c['f']):
        i.fitness = float(f)
    return pop


def out(pop):
    return [[genome_value(i.genome), repr(i.fitness)] for i in pop]


def take(it, n):
    return [next(it) for _ in range(n)]


# -- pipeline operators -------------------------------------------------------
@target(p_swap=0.2, p_xover=1.0, persist_children=False)
def uniform_crossover(c, kw):
    return out(take(ops.UniformCrossover(**kw)(iter(pop_of(c))), len(c['g'])))


@target(num_points=2, p_xover=1.0, persist_children=False)
def nary_crossover(c, kw):
    return out(take(ops.NAryCrossover(**kw)(iter(pop_of(c))), len(c['g'])))


@target(persist_children=False)
def persistence(c, kw):
    x = ops.UniformCrossover(**kw)
    p = pop_of(c)
    return out([next(x(iter(p))), next(x(iter(p[2:]))), next(x(iter(p)))])


@target(offset=0, exponent=1)
def proportional(c, kw):
    p = pop_of(c)
    return [idx_of(i, p) for i in take(ops.proportional_selection(p, **kw), 30)]


@target(n=None, shuffle=True, offset=0, exponent=1)
def sus(c, kw):
    p = pop_of(c)
    if 'n' in kw:
        kw = dict(kw, n=len(p))
    return [idx_of(i, p) for i in take(ops.sus_selection(p, **kw), 4 * len(p))]


@target(k=2, key=None, select_worst=False)
def tournament(c, kw):
    p = pop_of(c)
    return [idx_of(i, p) for i in take(ops.tournament_selection(p, **kw), 30)]


@target(parents=None, key=None)
def truncation(c, kw):
    return out(ops.truncation_selection(pop_of(c), c['n'], **kw))


@target(k=1, key=None)
def elitist(c, kw):
    p = pop_of(c)
    q = [i.clone() for i in p]
    for i in q:
        i.fitness = float(np.sum(i.genome)) / 2
    return out(ops.elitist_survival(q, p, **kw))


@target(key=None)
def insertion(c, kw):
    p = pop_of(c)
    return out(ops.insertion_selection(p[::-1], p, **kw))


@target(p=0.5)
def bernoulli(c, kw):
    return ops.random_bernoulli_vector((5, c['n'] + 3), **kw).tolist()


@target(offset=0, exponent=1)
def values(c, kw):
    return ops.compute_population_values(pop_of(c), **kw).tolist()


@target(bounds=(-np.inf, np.inf), transform_slope=1.0, transform_intercept=0.0)
def gaussian(c, kw):
    return out(take(mutate_gaussian(iter(pop_of(c)), std=2.5, expected_num_mutations=1, **kw), len(c['g'])))


@target(bounds=(-np.inf, np.inf), transform_slope=1.0, transform_intercept=0.0)
def gaussian_genome(c, kw):
    return genome_mutate_gaussian(np.array(c['g'][0], dtype=float), std=0.7, expected_num_mutations='isotropic', **kw).tolist()


@target(n=10000)
def binomial(c, kw):
    return out(take(mutate_binomial(iter(pop_of(c, int)), std=9.5, bounds=[(-500, 500)] * len(c['g'][0]), expected_num_mutations=2, **kw), len(c['g'])))


@target(n=10000)
def binomial_genome(c, kw):
    return genome_mutate_binomial(9.5, [(-500, 500)] * len(c['g'][0]), expected_num_mutations=2, **kw)(np.array(c['g'][0])).tolist()


def seg_pop(c):
    return [Individual([np.array(r) for r in c['g']]) for _ in range(6)]


@target(append=False)
def add_segment(c, kw):
    n = [100]

    def fresh():
        n[0] += 1
        return np.array([n[0]])
    return out(take(sops.add_segment(iter(seg_pop(c)), seq_initializer=fresh, probability=0.8, **kw), 6))


@target(append=False)
def copy_segment(c, kw):
    return out(take(sops.copy_segment(iter(seg_pop(c)), probability=0.8, **kw), 6))


@target(expected_num_mutations=1.0)
def apply_mutation(c, kw):
    seen = []

    def mut(seq, expected_num_mutations):
        seen.append(expected_num_mutations)
        return seq
    next(sops.apply_mutation(iter(seg_pop(c)), mutator=mut, **kw))
    return seen


@target(header=True, notes=None)
def migration_metric(c, kw):
    s = io.StringIO()
    m = ops.migration_metric(s, **kw)
    p = pop_of(c)
    m(3, p[0], p[1], True)
    return s.getvalue()


# -- algorithms ----------------------------------------------------------------
@target(k_elites=1, start_generation=0)
def generational(c, kw):
    log = []
    cx = {'leap': {}}
    prob = FunctionProblem(lambda p: float(np.sum(p)), c['mx'])
    rep = Representation(create_real_vector([(-5, 5)] * 2))

    def look(p):
        log.append((cx['leap'].get('generation'), out(p)))
        return p
    r = generational_ea(4, c['n'] + 4, prob, rep, [ops.tournament_selection, ops.clone, mutate_gaussian(std=1.0, expected_num_mutations=1), ops.evaluate, ops.pool(size=c['n'] + 4), look], context=cx, **kw)
    return [out(r), log]


@target(start_generation=0, rank_func=rank_ordinal_sort)
def nsga2(c, kw):
    cx = {'leap': {}}
    log = []
    prob = MO(maximize=(True, False))
    rep = Representation(create_real_vector([(-5, 5)] * 2))

    def look(p):
        log.append((cx['leap'].get('generation'), [i.genome.tolist() for i in p]))
        return p
    r = generalized_nsga_2(max_generations=4, pop_size=4, problem=prob, representation=rep, pipeline=[ops.naive_cyclic_selection, ops.clone, mutate_gaussian(std=1.0, expected_num_mutations=1), ops.evaluate, ops.pool(size=4), look], context=cx, **kw)
    return [sorted(i.genome.tolist() for i in r), [l[0] for l in log]]


@target(generations=100, pop_size=8, mutation_std=1.0, maximize=False, viz=False, hard_bounds=True)
def solver(c, kw):
    s = io.StringIO()
    pts = []

    def f(x):
        pts.append(x.tolist())
        return float(np.sum(np.asarray(x) ** 2))
    r = ea_solve(f, [(-1.0, 2.0)] * 2, stream=s, **kw)
    return [np.asarray(r).tolist(), s.getvalue(), pts]


@target(viz_ylim=(0, 1))
def solver_plot(c, kw):
    plt.close('all')
    try:
        ea_solve(lambda x: 0.25 + 0.5 * float(abs(np.sin(x[0]))), [(0.0, 1.0)], generations=2, pop_size=3, viz=True, stream=io.StringIO(), **kw)
        return [[list(a.get_ylim()), len(a.lines)] for n in plt.get_fignums() for a in plt.figure(n).axes]
    finally:
        plt.close('all')


@target(viz=False)
def solver_no_plot(c, kw):
    plt.close('all')
    try:
        ea_solve(lambda x: float(x[0]), [(0.0, 1.0)], generations=1, pop_size=2, stream=io.StringIO(), **kw)
        return len(plt.get_fignums())
    finally:
        plt.close('all')


@target(count_nonviable=False, inserter=dasync.greedy_insert_into_pop, evaluated_probe=None, pop_probe=None)
def steady(c, kw):
    evals = []

    def f(p):
        evals.append(p.tolist())
        if len(evals) % 3 == 0:
            raise ValueError('scripted')
        return float(np.sum(p))
    prob = FunctionProblem(f, c['mx'])
    rep = Representation(create_real_vector([(-5, 5)] * 2), individual_cls=DistributedIndividual)
    rep.decoder = IdentityDecoder()
    cl = Client([0])
    with patched():
        r = dasync.steady_state(cl, 6, 3, 3, rep, prob, [ops.random_selection, ops.clone, mutate_gaussian(std=1.0, expected_num_mutations=1), ops.pool(size=1)], context={'leap': {'distrib': {'non_viable': 0}}}, **kw)
    return [len(evals), sorted(out(r), key=repr)]


@target(start_generation=0)
def counter(c, kw):
    cx = {'leap': {}}
    g = util.inc_generation(context=cx, **kw)
    return [g.generation(), g(), g(), cx]


@target(start=0)
def births(c, kw):
    cx = {'leap': {}}
    g = util.inc_births(context=cx, **kw)
    return [g.births(), g(), cx]


# -- problems ------------------------------------------------------------------
def facts(p, xs):
    return [p.maximize if not hasattr(p.maximize, 'tolist') else p.maximize.tolist(), [np.asarray(p.evaluate(x)).tolist() for x in xs]]


def reals(c, n=2, lo=-4.0, hi=4.0):
    return [lo + (hi - lo) * (np.resize(np.array(g, dtype=float), n) % 97) / 97 for g in c['g']]


def bits(c):
    return [np.array(g, dtype=int) % 2 for g in c['g']]


for _name, _cls, _d in [('spheroid', rp.SpheroidProblem, dict(maximize=False)), ('rastrigin', rp.RastriginProblem, dict(a=1.0, maximize=False)),
                        ('rosenbrock', rp.RosenbrockProblem, dict(maximize=False)), ('step', rp.StepProblem, dict(maximize=True)),
                        ('noisy_quartic', rp.NoisyQuarticProblem, dict(maximize=False)), ('shekel', rp.ShekelProblem, dict(k=500, c=np.arange(1, 26), maximize=False)),
                        ('griewank', rp.GriewankProblem, dict(maximize=False)), ('ackley', rp.AckleyProblem, dict(a=20, b=0.2, c=2 * np.pi, maximize=False)),
                        ('weierstrass', rp.WeierstrassProblem, dict(kmax=20, a=0.5, b=3, maximize=False)),
                        ('langermann', rp.LangermannProblem, dict(m=5, c=(1, 2, 5, 2, 3), a=((3, 5), (5, 2), (2, 1), (1, 4), (7, 9)), maximize=False)),
                        ('schwefel', rp.SchwefelProblem, dict(alpha=418.982887, maximize=False)), ('gaussian_hill', rp.GaussianProblem, dict(width=1, height=1, maximize=True))]:
    def _f(c, kw, cls=_cls):
        return facts(cls(**kw), reals(c))
    T['problem_' + _name] = (_f, _d)


@target(d=1.0, mu_1=2.5, maximize=False)
def lunacek(c, kw):
    return facts(rp.LunacekProblem(2, **kw), reals(c))


@target(maximize=False)
def cosine(c, kw):
    return facts(rp.CosineFamilyProblem(1.5, [2, 3], [2, 2], **kw), reals(c, 2, 0.0, 1.0))


@target(maximize=False)
def quadratic(c, kw):
    return facts(rp.QuadraticFamilyProblem([np.diag([1.0, 2.0])], [np.identity(2)], [np.array([0.5, 0.5])], [1.0], **kw), reals(c))


@target(maximize=False)
def parabaloid(c, kw):
    return facts(rp.ParabaloidProblem(np.diag([1.0, 2.0]), np.identity(2), **kw), reals(c))


@target(maximize=False, c=1.0)
def constant(c, kw):
    return facts(ConstantProblem(**kw), reals(c))


for _name, _cls in [('max_ones', bp.MaxOnes), ('leading_ones', bp.LeadingOnes)]:
    def _f(c, kw, cls=_cls):
        if 'target_string' in kw:       # documented default: all ones
            kw = dict(kw, target_string=np.ones(len(c['g'][0]), dtype=int))
        return facts(cls(**kw), bits(c))
    T['problem_' + _name] = (_f, dict(target_string=None, maximize=True))
for _name, _cls in [('trap', bp.DeceptiveTrap), ('two_max', bp.TwoMax)]:
    def _f(c, kw, cls=_cls):
        return facts(cls(**kw), bits(c))
    T['problem_' + _name] = (_f, dict(maximize=True))
for _k, _n in [(1, 30), (2, 30), (3, 10), (4, 30), (6, 10)]:
    def _f(c, kw, cls=getattr(mp, 'ZDT%dProblem' % _k), n=_n, k=_k):
        p = cls(**kw)
        x = [np.resize((np.array(g, dtype=float) % 97) / 97, n) for g in c['g']]
        r = facts(p, x)
        return r + [raises(Exception, p.evaluate, x[0][:-1]), raises(Exception, p.evaluate, x[0] + 40.0)]
    T['problem_zdt%d' % _k] = (_f, dict(n=_n, check_phenome=True))


@target(num_inputs_pad=False, maximize=True)
def truth_table(c, kw):
    kw = {{'num_inputs_pad': 'pad_inputs'}.get(k, k): v for k, v in kw.items()}

    class Exe:
        num_inputs = 3
        seen = []

        def __call__(self, x):
            self.seen.append(len(x))
            return [int(x[0])]
    p = xp.TruthTableProblem(lambda x: [int(any(x))], 2, 1, **kw)
    e = Exe()
    e.seen = []
    v = p.evaluate(e)
    return [p.maximize, v, e.seen]


class Env:
    """Scripted environment; terminates at step 3 but would go on."""
    _max_episode_steps = 0

    def __init__(self):
        self.t = 0
        self.observation_space = spaces.Box(low=0, high=1.0, shape=(2,), dtype=np.float32)
        self.action_space = spaces.Discrete(2)

    def reset(self, **k):
        self.t = 0
        return np.zeros(2), {}

    def step(self, action):
        self.t += 1
        return np.ones(2) * self.t, 1.5, self.t == 3, False, {}

    def render(self):
        pass


@target(stop_on_done=True, maximize=True)
def environment(c, kw):
    p = xp.EnvironmentProblem(2, 3 + c['n'], Env(), 'reward', False, **kw)
    return [p.maximize, p.evaluate(lambda o: 1)]


@target(threshold=-0.0000000001)
def convex_threshold(c, kw):
    prob = rp.SpheroidProblem()
    rep = Representation(create_real_vector([(-1e-4, 1e-4)] * 2))
    design = Individual.evaluate_population(rep.create_population(5, prob))
    e = ELAConvexity(prob, rep, design, num_convexity_tests=20)
    return [e.convex_p(**kw), e.linear_p(**kw)]


# -- representations ------------------------------------------------------------
@target(decoder=IdentityDecoder(), individual_cls=Individual)
def representation(c, kw):
    rep = Representation(lambda: np.array(c['g'][0]), **kw)
    i = rep.create_individual(rp.SpheroidProblem())
    return [type(i).__name__, type(i.decoder).__name__, i.evaluate(), rep.create_population(2, rp.SpheroidProblem())[1].genome.tolist()]


@target(decoder=IdentityDecoder())
def individual(c, kw):
    i = Individual(np.array(c['g'][0], dtype=float), problem=rp.SpheroidProblem(), **kw)
    return [i.decode().tolist(), i.evaluate()]


PRIMS = [lambda *a: sum(a), lambda *a: a[0] - a[1], lambda *a: a[0] * a[1]]


@target(prune=True, levels_back=None)
def cgp_decoder(c, kw):
    if 'levels_back' in kw:
        kw = dict(kw, levels_back=3)      # no restriction
    d = cgp.CGPDecoder(PRIMS, 2, 2, 3, 2, 2, **kw)
    g = d.initializer()()
    e = d.decode(g)
    return [repr(d.bounds()), [float(v) for v in e([2.0, 3.0])], sorted(e.graph.nodes)]


@target(activation=nn.sigmoid)
def neural(c, kw):
    d = nn.SimpleNeuralNetworkDecoder((2, 3, 2), **kw)
    g = np.resize(np.array(c['g'][0], dtype=float) / 50, 17)
    return np.asarray(d.decode(g)([0.25, -1.0])).tolist()


@target(priority_metric=rules.PittRulesExecutable.PriorityMetric.RULE_ORDER, memory_space=None)
def pitt(c, kw):
    d = rules.PittRulesDecoder(spaces.Box(low=0, high=1.0, shape=(1, 2), dtype=np.float32), spaces.Discrete(4), **kw)
    g = [np.array([0.0, (x % 11) / 10, 0.0, 1.0, float(k % 4)]) for k, x in enumerate(c['g'][0])]
    return [int(d.decode(g)(np.array([x / 10, 0.5]))) for x in range(11)]


# -- probes ----------------------------------------------------------------------
@target(header=True, modulo=1, extra_metrics=None, comment=None, job=None, notes=None, numpy_as_list=True)
def stats_csv(c, kw):
    s = io.StringIO()
    cx = {'leap': {}}
    p = probe.FitnessStatsCSVProbe(stream=s, context=cx, **kw)
    for g in range(5):
        cx['leap']['generation'] = g
        p(pop_of(c))
    q = probe.FitnessStatsCSVProbe(stream=s, context=cx, **dict(kw, extra_metrics={'m': lambda pop: np.arange(3)}))
    q(pop_of(c))
    return s.getvalue()


@target(best_only=False, header=True, do_fitness=False, do_genome=False, notes=None, extra_metrics=None, job=None, numpy_as_list=True, do_dataframe=False)
def attributes_csv(c, kw):
    s = io.StringIO()
    p = probe.AttributesCSVProbe(['tag'], stream=s, context={'leap': {'generation': 3}}, **kw)
    q = pop_of(c)
    for k, i in enumerate(q):
        i.tag = np.array([k, 2])
    p(q)
    try:
        d = len(p.dataframe)
    except ValueError:
        d = None
    return s.getvalue(), d


@target(header=True)
def bsf_probe(c, kw):
    s = io.StringIO()
    p = probe.BestSoFarProbe(stream=s, context={'leap': {'generation': 2}}, **kw)
    p(pop_of(c))
    p(pop_of(c)[:1])
    return s.getvalue()


@target(header=True)
def bsf_iter_probe(c, kw):
    s = io.StringIO()
    p = probe.BestSoFarIterProbe(stream=s, context={'leap': {'generation': 2}}, **kw)
    take(p(iter(pop_of(c))), len(c['g']))
    return s.getvalue()


@target(prefix='')
def print_individual(c, kw):
    s = io.StringIO()
    p = [Individual(np.array(g)) for g in c['g']]
    take(probe.print_individual(iter(p), stream=s, **kw), len(p))
    t = s.getvalue()
    for i in p:
        t = t.replace(str(i.uuid), 'U')
    return t


@target(prefix='')
def print_probe(c, kw):
    s = io.StringIO()
    probe.print_probe(pop_of(c), probe=lambda p: len(p), stream=s, **kw)
    return s.getvalue()


def _axis(ax):
    return [ax.get_title(), [l.get_xydata().tolist() for l in ax.lines], [x.get_offsets().tolist() for x in ax.collections], list(ax.get_xlim()), list(ax.get_ylim()), [[b.get_x(), b.get_height()] for b in ax.patches]]


def _plot(cls, c, kw, gens=3, dt=float, **more):
    cx = {'leap': {}}
    fig, ax = plt.subplots()
    try:
        p = cls(ax=ax, context=cx, **kw, **more)
        seen = [_axis(ax)]
        for g in range(gens):
            cx['leap']['generation'] = g
            p([i for i in pop_of(c)][g % 2:])
            seen.append(_axis(ax))
        return seen
    finally:
        plt.close(fig)


@target(modulo=1, title='Best-of-Generation Fitness', xlim=None, ylim=None, x_axis_value=None)
def fitness_plot(c, kw):
    return _plot(probe.FitnessPlotProbe, c, kw)


@target(modulo=1, title='Population Metrics', xlim=None, ylim=None, x_axis_value=None)
def metrics_plot(c, kw):
    return _plot(probe.PopulationMetricsPlotProbe, c, kw, metrics=[probe.sum_of_variances_metric])


@target(modulo=1, title='Cartesian Phenotypes', xlim=(-5.12, 5.12), ylim=(-5.12, 5.12), contours=None, granularity=None, pad=())
def cartesian_plot(c, kw):
    return _plot(probe.CartesianPhenotypePlotProbe, c, kw)


@target(modulo=1, title='Sum Phenotypes', xlim=(-5.12, 5.12), ylim=(-5.12, 5.12), problem=None, granularity=1)
def sum_plot(c, kw):
    return _plot(probe.SumPhenotypePlotProbe, c, kw)


@target(modulo=1, title='Sum Phenotypes', xlim=(-5.12, 5.12), ylim=(-5.12, 5.12), granularity=1)
def sum_plot_problem(c, kw):
    return _plot(probe.SumPhenotypePlotProbe, c, kw, problem=bp.MaxOnes())


@target(modulo=1, title='Histogram of Phenotypes')
def hist_plot(c, kw):
    return _plot(probe.HistPhenotypePlotProbe, c, kw, gens=2)


@target(modulo=1, title='HeatMap of Phenotypes')
def heat_plot(c, kw):
    return _plot(probe.HeatMapPhenotypeProbe, c, kw, gens=2)


# -- analysis ---------------------------------------------------------------------
@target(time_col='step', run_col='job', experiment_cols=['exp'], metric_cols=('bsf',))
def curves(c, kw):
    kw = dict(kw, experiment_cols=['exp'], metric_cols=('bsf',))
    df = pd.DataFrame([{'exp': k % 2, 'job': j, 'step': t, 'bsf': float(v)} for k in range(2) for j in range(2) for t, v in enumerate(c['g'][(k + j) % len(c['g'])])])
    a = analysis.CurveAnalyzer(df, **kw)
    return a.avg_curves().to_csv()


@target(num_convexity_tests=1000)
def convexity(c, kw):
    prob = rp.SpheroidProblem()
    rep = Representation(create_real_vector([(-5, 5)] * 2))
    design = rep.create_population(5, prob)
    design = Individual.evaluate_population(design)
    e = ELAConvexity(prob, rep, design, **kw)
    return [len(e.deltas), e.convex_p(), e.linear_p(), e.linear_deviation(), e.linear_deviation_abs()]


NAMES = sorted(T)
HEAVY = {'fitness_plot', 'metrics_plot', 'cartesian_plot', 'sum_plot', 'sum_plot_problem', 'hist_plot', 'heat_plot', 'solver', 'convexity', 'environment', 'curves'}


def _run(c, name, kw):
    np.random.seed(c['seed'] % 2 ** 32)
    random.seed(c['seed'])
    return T[name][0](c, kw)


def _compare(c, ctx, name):
    defaults = T[name][1]
    ks = sorted(defaults)
    keep = {k: defaults[k] for k, b in zip(ks, c['mask']) if b}
    want = _run(c, name, dict(defaults))
    got = _run(c, name, keep)
    same = repr(got) == repr(want)
    check(same, '%s: omitting %r gives %.400r, spelling out the documented defaults %.400r', name, sorted(set(ks) - set(keep)), got, want)
    ctx.nt(len(keep) < len(ks))
    ctx.label(name)


@st.composite
def pops(draw):
    L = draw(st.integers(2, 6))
    n = draw(st.integers(4, 8)) // 2 * 2
    return draw(st.lists(st.lists(st.integers(0, 99), min_size=L, max_size=L), min_size=n, max_size=n))


base = dict(g=pops(), f=st.lists(st.integers(1, 60), min_size=8, max_size=8), mx=bools, n=st.integers(1, 4), mask=st.lists(bools, min_size=9, max_size=9))


@M.sub(case(name=st.sampled_from([n for n in NAMES if n not in HEAVY]), **base), n=1200, shards=6, rule='at least one optional argument omitted')
def omitted(c, ctx):
    _compare(c, ctx, c['name'])


@M.sub(case(name=st.sampled_from([n for n in NAMES if n in HEAVY]), **base), n=36, shards=8, mult=5, rule='at least one optional argument omitted')
def omitted_heavy(c, ctx):
    _compare(c, ctx, c['name'])
