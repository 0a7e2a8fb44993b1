"""Malformed requests are refused; well-formed neighbours are accepted.

Each rule generates a call together with the documented verdict (refuse or
accept); the oracle is that the call raises exactly when it has to, and that a
refused call leaves its inputs as they were.
"""
from common import *
from gymnasium import spaces
from leap_ec import ops, problem as pr, probe, util
from leap_ec.algorithm import multi_population_ea, stop_at_generation
from leap_ec.binary_rep import decoders as bd, ops as bo, problems as bp
from leap_ec.contrib.analysis import CurveAnalyzer
from leap_ec.contrib.transfer.sequential import initialize_seeded
from leap_ec.distrib.individual import DistributedIndividual
from leap_ec.executable_rep import cgp, executable as ex, neural_network as nn, problems as xp, rules
from leap_ec.individual import RobustIndividual
from leap_ec.int_rep import ops as io_
from leap_ec.landscape_features.exploratory import ELAConvexity
from leap_ec.multiobjective.nsga2 import generalized_nsga_2
from leap_ec.multiobjective import problems as mp
from leap_ec.multiobjective.problems import SCHProblem
from leap_ec.real_rep import ops as ro, problems as rp
from leap_ec.real_rep.initializers import create_real_vector
from leap_ec.representation import Representation
from leap_ec.segmented_rep import ops as so
import pandas as pd
import os
import sys
import tempfile
from PIL import Image
from leap_ec.contrib.analysis import CurvePlotter
from leap_ec.contrib.transfer.sequential import PopulationSeedingRepertoire
from leap_ec.statistical_helpers import stochastic_chisquare

M = Module('P49')
M.assumptions = ['Only the fact of a refusal is judged, not the exception class, except that it is an ordinary exception raised before a result is produced and not a NameError from building the refusal itself.']
RULES = {}


def rule(f):
    RULES[f.__name__] = f
    return f


def go(it):
    return lambda: next(it())


# every rule returns (thunk, must_raise, [objects that must not change])
PROBS = [-1.0, -0.001, 0, 0.0, 0.25, 1, 1.0, 1.001, 2.5]


def ind(c, dt=int):
    i = Individual(np.array(c['d'], dtype=dt) % 2 if dt is int else np.array(c['d'], dtype=dt), problem=bp.MaxOnes())
    i.fitness = 3.0
    return i


def _rates(c, make):
    """Exactly one of probability / expected number, and a probability in [0, 1]."""
    p = PROBS[c['v'] % len(PROBS)] if c['a'] else None
    e = 1 if c['b'] else None
    i = ind(c)
    t = make(i, dict(expected_num_mutations=e, probability=p), [(0, 1)] * len(c['d']))[c['k'] % 2]
    return t, (p is None) == (e is None) or (p is not None and not 0 <= p <= 1), [i]


@rule
def bitflip_rates(c):
    return _rates(c, lambda i, kw, b: [lambda: next(bo.mutate_bitflip(iter([i]), **kw)), lambda: bo.genome_mutate_bitflip(i.genome, **kw)])


@rule
def randint_rates(c):
    return _rates(c, lambda i, kw, b: [lambda: next(io_.mutate_randint(iter([i]), bounds=b, **kw)), lambda: io_.individual_mutate_randint(i.genome, bounds=b, **kw)])


@rule
def binomial_rates(c):
    return _rates(c, lambda i, kw, b: [lambda: next(io_.mutate_binomial(iter([i]), std=1.0, bounds=b, **kw)), lambda: io_.genome_mutate_binomial(1.0, b, **kw)(i.genome)])


@rule
def bernoulli_probability(c):
    p = PROBS[c['v'] % len(PROBS)]
    return lambda: ops.random_bernoulli_vector(5, p), not 0 <= p <= 1, []


@rule
def gaussian_parameters(c):
    i = ind(c, float)
    std = [-1.0, -1e-9, 0.0, 0.5, 3.0][c['v'] % 5]
    e = 1 if c['a'] else None
    t = (lambda: next(ro.mutate_gaussian(iter([i]), std=std, expected_num_mutations=e))) if c['b'] else (lambda: ro.genome_mutate_gaussian(i.genome, std=std, expected_num_mutations=e))
    return t, e is None or std < 0, [i]


@rule
def array_genomes(c):
    """Array operators and decoders refuse genomes that are not numpy arrays."""
    g = np.array(c['d']) % 2
    bad = c['a']
    kind = c['v'] % 3
    g = (g.tolist() if kind == 0 else tuple(g.tolist()) if kind == 1 else str(g)) if bad else g
    i = Individual(g)
    bounds = [(0, 1)] * len(c['d'])
    t = [lambda: next(bo.mutate_bitflip(iter([i]), expected_num_mutations=1)),
         lambda: next(io_.mutate_randint(iter([i]), bounds=bounds, expected_num_mutations=1)),
         lambda: next(io_.mutate_binomial(iter([i]), std=1.0, bounds=bounds, expected_num_mutations=1)),
         lambda: next(ro.mutate_gaussian(iter([i]), std=1.0, expected_num_mutations=1)),
         lambda: bd.BinaryToIntDecoder(1, 1).decode(g),
         lambda: bd.BinaryToRealDecoder((1, 0.0, 1.0), (1, 0.0, 2.0)).decode(g),
         lambda: bd.BinaryToIntGreyDecoder(1, 1).decode(g),
         lambda: bd.BinaryToRealGreyDecoder((1, 0.0, 1.0), (1, 0.0, 2.0)).decode(g),
         lambda: next(ops.UniformCrossover()(iter([i, Individual(copy.deepcopy(g))])))][c['k'] % 9]
    return t, bad, [] if not bad else [i]


@rule
def array_phenomes(c):
    x = np.resize(np.array(c['d'], dtype=float), 2) % 7 / 8
    b = np.array(c['d'], dtype=int) % 2
    P = [(bp.MaxOnes(), b), (bp.LeadingOnes(), b), (bp.MaxOnes(target_string=b[::-1].copy()), b), (bp.LeadingOnes(target_string=b.copy()), b), (rp.GriewankProblem(), x), (rp.AckleyProblem(), x), (rp.WeierstrassProblem(), x), (rp.LangermannProblem(), x), (rp.SchwefelProblem(), x), (rp.GaussianProblem(), x),
         (rp.CosineFamilyProblem(1.0, [2, 2], [2, 2]), x), (rp.LunacekProblem(2), x), (rp.ScaledProblem(rp.SpheroidProblem(), (-1, 1)), x), (rp.TranslatedProblem(rp.GriewankProblem(), [1.0, 2.0]), x)]
    p, y = P[c['k'] % len(P)]
    bad = c['a']
    return lambda: p.evaluate(y.tolist() if bad else y), bad, []


@rule
def phenome_length(c):
    n = c['v'] % 3 + 2
    m = n + [-1, 0, 1][c['w'] % 3]
    x = np.resize(np.array(c['d'], dtype=float), m) % 7 / 8
    b = np.resize(np.array(c['d'], dtype=int), m) % 2
    T = [(bp.MaxOnes(target_string=np.ones(n, dtype=int)), b), (bp.LeadingOnes(target_string=np.ones(n, dtype=int)), b), (rp.TranslatedProblem(rp.SpheroidProblem(), np.ones(n)), x),
         (rp.MatrixTransformedProblem(rp.SpheroidProblem(), np.identity(n)), x), (rp.LangermannProblem(m=1, c=(1,), a=(tuple(range(n)),)), x)]
    p, y = T[c['k'] % len(T)]
    return lambda: p.evaluate(y), m != n, []


@rule
def image_size(c):
    w, h = c['v'] % 3 + 1, c['w'] % 3 + 2
    m = [w * h, 1, w, w * h + 1, w * h - 1, 2 * w * h][c['k'] % 6]
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, 'i.png')
        Image.new('1', (w, h), 1).save(path)
        p = bp.ImageProblem(path, size=(w, h))
    return lambda: p.evaluate(np.ones(m, dtype=bool)), m != w * h, []


@rule
def two_dimensional(c):
    m = c['v'] % 4 + 1
    return lambda: rp.ShekelProblem().evaluate(np.ones(m)), m != 2, []


@rule
def problem_shapes(c):
    k = c['k'] % 8
    n = c['v'] % 3 + 1
    d = [-1, 0, 1][c['w'] % 3]
    if k == 0:
        return lambda: rp.GaussianProblem(width=d), d <= 0, []
    if k == 1:
        return lambda: rp.CosineFamilyProblem(1.0, [2] * n, [2] * (n + d)), d != 0, []
    if k == 2:
        return lambda: rp.QuadraticFamilyProblem([np.identity(2)] * n, [np.identity(2)] * n, [np.zeros(2)] * (n + (d if c['a'] else 0)), [0.0] * (n + (0 if c['a'] else d))), d != 0, []
    if k == 3:
        mat = np.diag([1.0, 2.0])
        mat[0, 1] = d
        return lambda: rp.ParabaloidProblem(mat, np.identity(2)), d != 0, []
    if k == 4:
        return lambda: rp.MatrixTransformedProblem(rp.SpheroidProblem(), np.zeros((n + 1, n + 1 + d))), d != 0, []
    if k == 5:
        return lambda: rp.LangermannProblem(m=n, c=tuple(range(n)), a=tuple((1, 2) for _ in range(n + d)) or ((1, 2),) * (n + 1)), d != 0, []
    if k == 6:
        class NoBounds(pr.FunctionProblem):
            pass
        inner = rp.SpheroidProblem() if c['a'] else NoBounds(lambda p: 0.0, True)
        return lambda: rp.ScaledProblem(inner, (0, 1)), not c['a'], []
    return lambda: rp.QuadraticFamilyProblem.generate(2, n, num_global_optima=max(0, n + d)), n + d > n, []


@rule
def wrapper_counts(c):
    n = c['v'] % 4 - 1
    k = c['k'] % 3
    if k == 0:
        return lambda: pr.AverageFitnessProblem(rp.SpheroidProblem(), n), n <= 0, []
    if k == 1:
        return lambda: pr.CooperativeProblem(rp.SpheroidProblem(), n, ops.random_selection), n <= 0, []
    many = c['a']
    return lambda: pr.AlternatingProblem([rp.SpheroidProblem()] * (1 if many else 0), n), n <= 0 or not many, []


@rule
def cgp_layout(c):
    v = [1, 1, 1, 1, 1]
    z = c['v'] % 3 - 1
    v[c['w'] % 5] = z
    prims = [lambda *a: a[0]] * (0 if c['a'] else 1)
    return lambda: cgp.CGPDecoder(prims, *v), z <= 0 or c['a'], []


@rule
def genome_lengths(c):
    d = [-1, 0, 1][c['w'] % 3]
    k = c['k'] % 3
    if k == 0:
        return lambda: nn.SimpleNeuralNetworkDecoder((2, 3, 1)).decode(np.zeros(13 + d)), d != 0, []
    if k == 1:
        dec = cgp.CGPDecoder([lambda *a: a[0]], 2, 1, 2, 1, 2)
        g = np.resize(dec.initializer()(), dec.num_genes() + d)
        return lambda: dec.decode(g), d != 0, []
    dec = rules.PittRulesDecoder(spaces.Box(low=0, high=1.0, shape=(1, 2), dtype=np.float32), spaces.Discrete(4))
    n = c['v'] % 3
    return lambda: dec.decode([np.zeros(5)] * n + [np.zeros(5 + d)] * int(c['a'])), (d != 0 and c['a']) or n + int(c['a']) == 0, []


@rule
def network_shape(c):
    n = c['v'] % 4
    return lambda: nn.SimpleNeuralNetworkDecoder((2,) * n), n <= 1, []


@rule
def rule_priorities(c):
    pm = [None] + list(rules.PittRulesExecutable.PriorityMetric)
    m = pm[c['v'] % len(pm)]
    dec = rules.PittRulesDecoder(spaces.Box(low=0, high=1.0, shape=(1, 2), dtype=np.float32), spaces.Discrete(4), priority_metric=m)
    return lambda: dec.decode([np.zeros(5)]), m not in (None, rules.PittRulesExecutable.PriorityMetric.RULE_ORDER), []


@rule
def environment_limits(c):
    r, s = c['v'] % 3 - 1, c['w'] % 3 - 1
    t = ['reward', 'survival', 'rewards', ''][c['k'] % 4]

    class E:
        _max_episode_steps = 0
        observation_space = action_space = None
    return lambda: xp.EnvironmentProblem(r, s, E(), t, False), r <= 0 or s <= 0 or t not in ('reward', 'survival'), []


@rule
def truth_table_sizes(c):
    n, m = c['v'] % 3 - 1, c['w'] % 3 - 1
    f = (lambda x: [True]) if c['a'] else 'nand'
    return lambda: xp.TruthTableProblem(f, n, m), n <= 0 or m <= 0 or not c['a'], []


@rule
def keyboard_outputs(c):
    n = c['v'] % 3 + 1
    return lambda: ex.KeyboardExecutable(None, spaces.Box(low=0, high=1, shape=(n,))), n > 1, []


@rule
def instances_not_classes(c):
    cls = [Individual, RobustIndividual, DistributedIndividual][c['k'] % 3]
    d, p = (IdentityDecoder if c['a'] else IdentityDecoder()), (bp.MaxOnes if c['b'] else bp.MaxOnes())
    return lambda: cls(np.ones(2), decoder=d, problem=p), c['a'] or c['b'], []


@rule
def decoder_segments(c):
    n = c['v'] % 4 + 1
    cls = [bd.BinaryToRealDecoder, bd.BinaryToRealGreyDecoder][c['k'] % 2]
    return lambda: cls((3, 0.0, 1.0), tuple([3, 0.0, 1.0, 4.0][:n])), n != 3, []


@rule
def segment_mutators(c):
    n, m = c['v'] % 3 + 1, c['w'] % 3 + 1
    i = Individual([np.array(c['d']) for _ in range(n)])
    return lambda: next(so.segmented_mutate(iter([i]), mutator_functions=[lambda s: s] * m)), n != m, [i]


@rule
def negative_shares(c):
    pop = [ind(c) for _ in range(3)]
    for k, i in enumerate(pop):
        i.fitness = float(k + 1)
    pop[c['w'] % 3].fitness = [-1.0, -0.125, 0.0, 2.0][c['v'] % 4]
    sel = [ops.proportional_selection, ops.sus_selection][c['k'] % 2]
    return lambda: next(sel(pop)), pop[c['w'] % 3].fitness < 0, pop


@rule
def sus_points(c):
    pop = [ind(c) for _ in range(3)]
    n = c['v'] % 5 - 2
    return lambda: next(ops.sus_selection(pop, n=n)), n <= 0, pop


@rule
def crossover_points(c):
    n = c['v'] % 6 + 1
    pop = [ind(c), ind(c)]
    return lambda: next(ops.NAryCrossover(num_points=n)(iter(pop))), n > len(c['d']), pop if n > len(c['d']) else []


@rule
def binomial_spread(c):
    """A binomial of n trials has a standard deviation of at most sqrt(n) / 2."""
    n = c['v'] % 9 + 1
    std = [0.25, 0.5, 1.0, 1.45, 2.0][c['w'] % 5]
    if abs(4 * std ** 2 - n) < 1e-9:
        std *= 0.9
    i = Individual(np.array(c['d']))
    return lambda: next(io_.mutate_binomial(iter([i]), std=std, bounds=[(-100, 100)] * len(c['d']), expected_num_mutations=1, n=n)), 4 * std ** 2 > n, []


@rule
def problem_count(c):
    n, m = c['v'] % 2 + 1, c['w'] % 2 + 1
    rep = [Representation(create_real_vector([(0, 1)])) for _ in range(n)]
    return lambda: multi_population_ea(max_generations=0, num_populations=n, pop_size=1, problem=[rp.SpheroidProblem() for _ in range(m)], representation=rep, shared_pipeline=[], context={'leap': {}}), n != m, []


@rule
def stop_generation(c):
    g = c['v'] % 5 - 2
    return lambda: stop_at_generation(g, context={'leap': {'generation': 0}})([]), g < 0, []


@rule
def single_objective(c):
    rep = Representation(lambda: np.array([0.5]))
    p = SCHProblem() if c['a'] else rp.SpheroidProblem()
    return lambda: generalized_nsga_2(max_generations=0, pop_size=2, problem=p, representation=rep, pipeline=[], context={'leap': {}}), not c['a'], []


@rule
def mixed_problems(c):
    pop = [ind(c) for _ in range(3)]
    for i in pop:
        i.problem = pop[0].problem
    if c['a']:
        pop[c['v'] % 3].problem = bp.LeadingOnes()
    return lambda: ops.grouped_evaluate(pop, max_individuals_per_chunk=[None, 1, 2, 3][c['w'] % 4]), c['a'], pop if c['a'] else []


@rule
def probes_need_fitness(c):
    pop = [ind(c) for _ in range(3)]
    if c['a']:
        pop[c['v'] % 3].fitness = None
    import io
    cx = {'leap': {'generation': 1}} if not c['b'] else {'leap': {}}
    p = probe.BestSoFarProbe(stream=io.StringIO(), context=cx)
    return lambda: p(pop), c['a'] or c['b'], pop


@rule
def missing_attribute(c):
    pop = [ind(c) for _ in range(3)]
    for i in pop:
        i.tag = 1
    if c['a']:
        del pop[c['v'] % 3].tag
    import io
    p = probe.AttributesCSVProbe(['tag'], stream=io.StringIO(), context={'leap': {'generation': 1}})
    return lambda: p(pop), c['a'], pop


@rule
def probe_sinks(c):
    """A recording probe needs somewhere to write, and has a data frame only if asked for one."""
    import io
    k = c['k'] % 4
    pop = [ind(c) for _ in range(2)]
    cx = {'leap': {'generation': 1}}
    if k == 0:
        return lambda: probe.AttributesCSVProbe(['fitness'], stream=io.StringIO() if c['a'] else None, do_dataframe=c['b'], context=cx), not (c['a'] or c['b']), []
    if k == 1:
        p = probe.AttributesCSVProbe(['fitness'], stream=io.StringIO(), do_dataframe=c['b'], context=cx)
        p(pop)
        return lambda: p.dataframe, not c['b'], pop
    bad = [None, 3, 'out.csv'][c['v'] % 3]
    if k == 2:
        return lambda: probe.FitnessStatsCSVProbe(stream=io.StringIO() if c['a'] else bad, context=cx), not c['a'], []
    return lambda: probe.AttributesCSVProbe(['fitness'], stream=io.StringIO() if c['a'] else [3, 'out.csv'][c['v'] % 2], do_dataframe=True, context=cx), not c['a'], []


@rule
def mixed_arrays(c):
    """Crossover needs both mates' genomes to be arrays."""
    g = [np.array(c['d']), np.array(c['d'])[::-1].copy()]
    inds = [Individual(x if ok else x.tolist()) for x, ok in zip(g, (c['a'], c['b']))]
    return lambda: next(ops.UniformCrossover()(iter(inds))), not (c['a'] and c['b']), inds if not (c['a'] and c['b']) else []


@rule
def iterated_best_needs_fitness(c):
    """The first individual ever seen needs a fitness, too."""
    import io
    pop = [ind(c) for _ in range(2)]
    if c['a']:
        pop[0].fitness = None
    cx = {'leap': {'generation': 1}}
    if c['b']:
        return lambda: next(probe.BestSoFarIterProbe(stream=io.StringIO(), context=cx)(iter(pop))), c['a'], pop
    return lambda: probe.BestSoFarProbe(stream=io.StringIO(), context=cx)(pop[:1]), c['a'], pop


DF = pd.DataFrame({'step': [0, 1], 'job': [0, 0], 'exp': [1, 1], 'bsf': [1.0, 2.0]})
LACKING = [
    lambda: pr.FitnessOffsetProblem(None, 1.0), lambda: pr.FitnessOffsetProblem(rp.SpheroidProblem(), None),
    lambda: pr.AverageFitnessProblem(None, 2), lambda: pr.AverageFitnessProblem(object(), 2),
    lambda: pr.CooperativeProblem(None, 1, ops.random_selection), lambda: pr.CooperativeProblem(rp.SpheroidProblem(), 1, None),
    lambda: pr.CooperativeProblem(rp.SpheroidProblem(), 1, ops.random_selection, combine_genomes=None), lambda: pr.CooperativeProblem(rp.SpheroidProblem(), 1, ops.random_selection, combine_genomes='join'),
    lambda: CurveAnalyzer(None, metric_cols=['bsf'], experiment_cols=['exp']), lambda: CurveAnalyzer(DF, metric_cols=[], experiment_cols=['exp']),
    lambda: CurveAnalyzer(DF, metric_cols=['bsf'], experiment_cols=[]), lambda: CurveAnalyzer(DF, metric_cols=None, experiment_cols=['exp']),
    lambda: CurveAnalyzer(DF, metric_cols=['bsf'], experiment_cols=None), lambda: CurveAnalyzer(DF, time_col=None, metric_cols=['bsf'], experiment_cols=['exp']),
    lambda: CurveAnalyzer(DF, run_col=None, metric_cols=['bsf'], experiment_cols=['exp']), lambda: CurvePlotter(None),
    lambda: initialize_seeded(None, [np.ones(2)]), lambda: initialize_seeded(lambda: np.ones(2), None), lambda: PopulationSeedingRepertoire(lambda: np.ones(2), None),
    lambda: PopulationSeedingRepertoire(lambda: np.ones(2), lambda *a, **k: None).build_repertoire(None, None),
    lambda: ELAConvexity(None, Representation(lambda: np.ones(1)), [1, 2, 3]), lambda: ELAConvexity(rp.SpheroidProblem(), None, [1, 2, 3]), lambda: ELAConvexity(rp.SpheroidProblem(), Representation(lambda: np.ones(1)), None),
    lambda: stop_at_generation(3, context=None), lambda: probe.FitnessStatsCSVProbe(stream=sys.stdout, context=None), lambda: probe.best_of_gen([]),
]


@rule
def missing_parts(c):
    """Constructors refuse to be given nothing in place of a required part."""
    return LACKING[c['v'] % len(LACKING)], True, []


@rule
def seeding_arguments(c):
    """One set of arguments per problem."""
    n, m = c['v'] % 3 + 1, c['w'] % 3 + 1

    def algo(problem, init, **kw):
        yield 0, Individual(init())
    rep = PopulationSeedingRepertoire(lambda: np.ones(2), algo)
    return lambda: rep.build_repertoire([rp.SpheroidProblem()] * n, [{}] * m), n != m, []


@rule
def convexity_thresholds(c):
    t = [-1.0, -1e-10, 0.0, 1e-10, 1.0][c['v'] % 5]
    prob, rep = rp.SpheroidProblem(), Representation(create_real_vector([(-1, 1)] * 2))
    e = ELAConvexity(prob, rep, Individual.evaluate_population(rep.create_population(3, prob)), num_convexity_tests=3)
    return lambda: (e.convex_p if c['a'] else e.linear_p)(t), t >= 0, []


@rule
def chisquare_totals(c):
    n = [-3, -1, 0, 1, 3][c['v'] % 5]
    return lambda: stochastic_chisquare({0: 50, 1: 50 + n}, {0: 50, 1: 50}), n != 0, []


@rule
def step_lookup(c):
    cx = {'leap': {}}
    if c['a']:
        cx['leap']['generation'] = 3
    if c['b']:
        cx['leap']['births'] = 4
    return lambda: util.get_step(context=cx), c['a'] == c['b'], []


@rule
def curve_columns(c):
    cols = ['step', 'job', 'exp', 'bsf']
    drop = c['v'] % 5
    df = pd.DataFrame({k: [1, 2] for j, k in enumerate(cols) if j != drop})
    return lambda: CurveAnalyzer(df, metric_cols=['bsf'], experiment_cols=['exp']), drop < 4, []


@rule
def convexity_design(c):
    n, t = c['v'] % 5, c['w'] % 3 - 1
    prob, rep = rp.SpheroidProblem(), Representation(create_real_vector([(-1, 1)] * 2))
    d = Individual.evaluate_population(rep.create_population(n, prob)) if n else []
    return lambda: ELAConvexity(prob, rep, d, num_convexity_tests=t), n <= 2 or t <= 0, list(d)


@rule
def plot_kind(c):
    kind = ['surfaces', 'contours', '', 'heat'][c['v'] % 4]
    return lambda: rp.plot_2d_problem(rp.SpheroidProblem(), xlim=(0, 1), ylim=(0, 1), kind=kind, granularity=0.5), True, []


@rule
def plot_granularity(c):
    return lambda: rp.plot_2d_problem(pr.FunctionProblem(lambda p: 0.0, True), xlim=(0, 1), ylim=(0, 1), kind='contour'), True, []


ZDT = [mp.ZDT1Problem, mp.ZDT2Problem, mp.ZDT3Problem, mp.ZDT4Problem, mp.ZDT6Problem]


@rule
def zdt_domain(c):
    """Each locus just inside, at, and just outside its stated bounds."""
    n = c['v'] % 4 + 2
    p = ZDT[c['k'] % 5](n)
    lo, hi = np.array(p.bounds, dtype=float).T
    x = lo + (hi - lo) * (np.resize(c['d'], n) / 10)
    j = c['w'] % n
    e = [0, -1e-6, -0.5, 1e-6, 0.5][c['v'] % 5]
    x[j] = (lo if c['a'] else hi)[j] + e
    return lambda: p.evaluate(x), (e < 0) if c['a'] else (e > 0), []


@rule
def zdt5_domain(c):
    p = mp.ZDT5Problem(c['v'] % 3 + 2)
    n = p.phenome_length
    b = np.resize(np.array(c['d']), n + [-5, -1, 0, 0, 0, 1, 5][c['w'] % 7]) % 2
    g = [0, 1, 2, -1][c['k'] % 4]
    b[c['v'] % len(b)] = g
    return lambda: p.evaluate(b), len(b) != n or g not in (0, 1), []


@rule
def objective_directions(c):
    m = [None, [], [True], [False, True]][c['k'] % 4]

    class Two(mp.MultiObjectiveProblem):
        def evaluate(self, phenome, *args, **kwargs):
            return phenome
    return lambda: Two(m), not m, []


@rule
def cgp_parameter_layout(c):
    v = [1, 1, 1, 1, 1]
    z = c['v'] % 3 - 1
    v[c['w'] % 5] = z
    prims = None if c['b'] and c['a'] else [lambda *a: a[0]] * (0 if c['a'] else 1)
    return lambda: cgp.CGPWithParametersDecoder(prims, *v, 1), z <= 0 or c['a'], []


@rule
def cgp_parameter_genomes(c):
    dec = cgp.CGPWithParametersDecoder([lambda x, p: x + p], 2, 1, 2, 1, 1, num_parameters_per_node=c['v'] % 3)
    d = [-1, 0, 1][c['w'] % 3]
    m = max(0, 2 * (c['v'] % 3) + d)
    g = [list(dec.initializer()()), [0.5] * m] + [[1]] * (c['k'] % 2)
    return lambda: dec.decode(g), m != 2 * (c['v'] % 3) or c['k'] % 2, []


@rule
def cgp_gene_ranges(c):
    """check_constraints and decode refuse genes out of range; the edges are fine."""
    dec = cgp.CGPDecoder([lambda *a: a[0]] * 2, 2, 1, 2, 1, 2)
    B = dec.bounds()
    g = np.array([B[j][(c['d'][j % len(c['d'])]) % 2] for j in range(len(B))])
    j = c['v'] % len(B)
    e = [0, 1, 2][c['w'] % 3]
    g[j] = B[j][0] - e if c['a'] else B[j][1] + e
    if c['b']:
        g2 = g.astype(float)
        return go(lambda: dec.check_constraints(iter([Individual(g2)]))), True, []
    return go(lambda: dec.check_constraints(iter([Individual(g)]))), e > 0, []


@rule
def cgp_inputs(c):
    dec = cgp.CGPDecoder([lambda *a: a[0]], c['v'] % 3 + 1, 1, 1, 1, 1)
    e = dec.decode(dec.initializer()())
    n = c['w'] % 5
    return lambda: e([1.0] * n), n != c['v'] % 3 + 1, []


@rule
def function_arity(c):
    n = c['v'] % 3 - 1
    return lambda: cgp.FunctionPrimitive(len, n), n < 0, []


@rule
def network_inputs(c):
    n, m = c['v'] % 3 + 1, c['w'] % 5
    dec = nn.SimpleNeuralNetworkDecoder((n, 2, 1))
    e = dec.decode(np.linspace(-1, 1, dec.length))
    return lambda: e(np.ones(m)), n != m, []


@rule
def rule_plots(c):
    n = c['v'] % 3 + 1
    dec = rules.PittRulesDecoder(spaces.Box(low=0, high=1.0, shape=(1, n), dtype=np.float32), spaces.Discrete(2))
    dims = [(0, 1), (1, 0), (0,), (0, 1, 1), None][c['w'] % 5]
    pop = [Individual([np.concatenate([np.full(2 * n, 0.5), [1]])], problem=bp.MaxOnes())]
    pop[0].fitness = 1.0

    def t():
        import matplotlib.pyplot as plt
        fig, ax = plt.subplots()
        try:
            rules.PlotPittRuleProbe(dec, plot_dimensions=dims, ax=ax, context={'leap': {'generation': 0}})(pop)
        finally:
            plt.close(fig)
    return t, n < 2 or dims not in ((0, 1), (1, 0)), pop


@rule
def graph_probe_modulo(c):
    m = c['v'] % 4 - 2

    def t():
        import matplotlib.pyplot as plt
        fig, ax = plt.subplots()
        try:
            nn.GraphPhenotypeProbe(modulo=m, ax=ax)
        finally:
            plt.close(fig)
    return t, m <= 0, []


@rule
def plot_limits(c):
    n, m = c['v'] % 4, c['w'] % 4
    f = [lambda: rp.plot_2d_problem(rp.SpheroidProblem(), xlim=(0, 1, 2, 3)[:n], ylim=(0, 1, 2, 3)[:m], kind='contour', granularity=0.5),
         lambda: rp.plot_2d_function(lambda p: p[0] + p[1], (0, 1, 2, 3)[:n], (0, 1, 2, 3)[:m], granularity=0.5)][c['k'] % 2]

    def t():
        import matplotlib.pyplot as plt
        try:
            f()
        finally:
            plt.close('all')
    return t, n != 2 or m != 2, []


NAMES = sorted(RULES)


@M.sub(case(rule=st.sampled_from(NAMES), d=st.lists(st.integers(0, 9), min_size=2, max_size=5), v=st.integers(0, 35), w=st.integers(0, 35), k=st.integers(0, 35), a=bools, b=bools), n=8000, shards=8, mult=6,
       rule='the call has to be refused')
def verdicts(c, ctx):
    if c['rule'] in ('array_genomes',):
        c = dict(c, d=c['d'][:2])
    thunk, must, keep = RULES[c['rule']](c)
    # whether a refusal comes before or after the fitness is unset is left open
    before = [snap(i)[:1] + snap(i)[2:] for i in keep]
    try:
        r = thunk()
        ok = True
    except Exception as e:
        ok, r = False, e
    if must:
        check(not ok, '%s: a malformed request was answered with %.200r', c['rule'], r)
        check(not isinstance(r, NameError), '%s: the refusal itself crashed: %r', c['rule'], r)
        check([snap(i)[:1] + snap(i)[2:] for i in keep] == before, '%s: the refused request changed its input', c['rule'])
    else:
        check(ok, '%s: a well-formed request was refused: %r', c['rule'], r)
    ctx.nt(must)
    ctx.label(c['rule'])
