"""A seeded run is a function of its seed and arguments alone."""
from common import *
import io
import random
import networkx as nx
from fakedask import Client, patched
from gymnasium import spaces
from leap_ec import ops, parsimony, probe
from leap_ec.algorithm import generational_ea, multi_population_ea, random_search
from leap_ec.binary_rep.initializers import create_binary_sequence
from leap_ec.binary_rep.ops import mutate_bitflip
from leap_ec.binary_rep.problems import MaxOnes
from leap_ec.contrib.transfer.sequential import initialize_seeded
from leap_ec.distrib import asynchronous as dasync
from leap_ec.distrib.individual import DistributedIndividual
from leap_ec.executable_rep import cgp, rules
from leap_ec.global_vars import context as GLOBAL
from leap_ec.int_rep.initializers import create_int_vector
from leap_ec.int_rep.ops import mutate_binomial, mutate_randint
from leap_ec.landscape_features.exploratory import ELAConvexity
from leap_ec.multiobjective.nsga2 import generalized_nsga_2
from leap_ec.multiobjective.ops import fast_nondominated_sort, rank_ordinal_sort
from leap_ec.problem import AverageFitnessProblem
from leap_ec.real_rep import problems as rp
from leap_ec.real_rep.initializers import create_real_vector
from leap_ec.real_rep.ops import mutate_gaussian
from leap_ec.representation import Representation
from leap_ec.segmented_rep.initializers import create_segmented_sequence
from leap_ec.segmented_rep.ops import add_segment, apply_mutation, copy_segment, remove_segment
from leap_ec.binary_rep.ops import genome_mutate_bitflip
from leap_ec.simple import ea_solve
from multi import MO

M = Module('P47')
M.boost = 3
M.assumptions = ['"Seeded" means that both random.seed and numpy.random.seed are called before each run; identifiers (UUIDs) and wall-clock times are not part of the result. Gymnasium spaces sample from their own generator, which is seeded on construction.',
                 'Asynchronous runs are compared under the same completion order (stand-in client).']


def total(g):
    return float(sum(np.sum(s) for s in g)) if isinstance(g, list) else float(np.sum(g))


REPS = {
    'real': (lambda: create_real_vector([(-5.0, 5.0)] * 4), [lambda: mutate_gaussian(std=0.7, expected_num_mutations=2), lambda: mutate_gaussian(std=[0.1, 0.5, 1.0, 2.0], expected_num_mutations='isotropic', bounds=(-5, 5))]),
    'int': (lambda: create_int_vector([(0, 9)] * 4), [lambda: mutate_randint(bounds=[(0, 9)] * 4, expected_num_mutations=2), lambda: mutate_binomial(std=1.5, bounds=[(0, 9)] * 4, probability=0.6)]),
    'bin': (lambda: create_binary_sequence(8), [lambda: mutate_bitflip(expected_num_mutations=1.5), lambda: mutate_bitflip(probability=0.4)]),
    'seg': (lambda: create_segmented_sequence(lambda: random.randint(1, 4), create_binary_sequence(3)),
            [lambda: apply_mutation(mutator=genome_mutate_bitflip), lambda: copy_segment(probability=0.5), lambda: remove_segment(probability=0.5), lambda: add_segment(seq_initializer=create_binary_sequence(3), probability=0.5)]),
}
SELECT = {
    'tournament': lambda k: ops.tournament_selection(k=2 + k % 3),
    'worst': lambda k: ops.tournament_selection(k=2, select_worst=True),
    'random': lambda k: ops.random_selection,
    'cyclic': lambda k: ops.cyclic_selection,
    'naive': lambda k: ops.naive_cyclic_selection,
    'prop': lambda k: ops.proportional_selection(offset='pop-min', exponent=1 + k % 2),
    'sus': lambda k: ops.sus_selection(offset='pop-min', shuffle=bool(k % 2)),
    'lexical': lambda k: ops.tournament_selection(k=3, key=parsimony.lexical_parsimony),
}
XOVER = {'none': None, 'uniform': lambda k: ops.UniformCrossover(p_swap=0.3, p_xover=0.7), 'nary': lambda k: ops.NAryCrossover(num_points=1 + k % 2, p_xover=0.8)}


def make_pipeline(c, n):
    init, muts = REPS[c['rep']]
    p = [SELECT[c['sel']](c['k']), ops.clone]
    if c['xo'] != 'none':
        p.append(XOVER['nary' if c['rep'] == 'seg' else c['xo']](0 if c['rep'] == 'seg' else c['k']))
    p += [muts[c['mut'] % len(muts)](), ops.evaluate, ops.pool(size=n)]
    return Representation(init()), p


def dump(pop):
    return [[genome_value(i.genome), repr(i.fitness)] for i in pop]


def generational(c, cx):
    rep, pipe = make_pipeline(c, 6)
    s = io.StringIO()
    prob = FunctionProblem(total, c['mx'])
    r = generational_ea(c['gens'], 6, prob, rep, pipe + [probe.FitnessStatsCSVProbe(stream=s, context=cx), probe.AttributesCSVProbe(stream=s, do_fitness=True, do_genome=True, best_only=True, context=cx)], context=cx)
    return [dump(r), s.getvalue(), cx['leap'].get('generation')]


def islands(c, cx):
    rep, pipe = make_pipeline(c, 5)
    s = io.StringIO()
    top = [nx.complete_graph(3), nx.cycle_graph(3), nx.star_graph(2)][c['k'] % 3]
    prob = FunctionProblem(total, c['mx'])
    r = multi_population_ea(max_generations=c['gens'], num_populations=3, pop_size=5, problem=prob, representation=rep,
                            shared_pipeline=pipe + [ops.migrate(top, ops.tournament_selection(k=2), ops.random_selection, 1 + c['k'] % 2, metric=ops.migration_metric(s), context=cx)], context=cx)
    return [[dump(p) for p in r], s.getvalue()]


def cooperative(c, cx):
    rep, pipe = make_pipeline(dict(c, rep='bin', mut=0, sel='tournament' if c['sel'] in ('lexical',) else c['sel']), 4)
    s = io.StringIO()
    pipe = [p for p in pipe if p is not ops.evaluate]
    prob = MaxOnes()
    pipe.insert(-1, ops.CooperativeEvaluate(num_trials=1 + c['k'] % 3, collaborator_selector=ops.random_selection, log_stream=s, context=cx))
    r = multi_population_ea(max_generations=min(c['gens'], 3), num_populations=2, pop_size=4, problem=prob, representation=rep, shared_pipeline=pipe,
                            init_evaluate=ops.const_evaluate(value=1.0), context=cx)
    return [[dump(p) for p in r], s.getvalue()]


def search(c, cx):
    init, muts = REPS[c['rep']]
    prob = FunctionProblem(total, c['mx'])
    r = random_search(c['gens'] + 2, prob, Representation(init()), [ops.random_selection, ops.clone, muts[c['mut'] % len(muts)](), ops.evaluate, ops.pool(size=1)], context=cx)
    return dump(r)


def nsga2(c, cx):
    init, muts = REPS[c['rep'] if c['rep'] != 'seg' else 'real']
    pipe = [ops.tournament_selection, ops.clone, muts[c['mut'] % len(muts)](), ops.evaluate, ops.pool(size=6)]

    class Q(MO):
        def evaluate(self, phenome, *a, **k):
            return np.array([float(np.sum(phenome)), float(phenome[0]) * 2.0])
    r = generalized_nsga_2(max_generations=c['gens'], pop_size=6, problem=Q(maximize=(c['mx'], True)), representation=Representation(init()), pipeline=pipe,
                           rank_func=[fast_nondominated_sort, rank_ordinal_sort][c['k'] % 2], context=cx)
    return [[genome_value(i.genome), i.fitness.tolist(), int(i.rank), repr(float(i.distance))] for i in r]


def solver(c, cx):
    s = io.StringIO()
    r = ea_solve(lambda x: float(np.sum(np.asarray(x) ** 2)), [(-3.0, 4.0)] * 3, generations=c['gens'], pop_size=5, maximize=c['mx'], stream=s)
    return [np.asarray(r).tolist(), s.getvalue()]


def steady(c, cx):
    init, muts = REPS[c['rep'] if c['rep'] != 'seg' else 'int']
    prob = FunctionProblem(lambda p: float(np.sum(p)), c['mx'])
    rep = Representation(init(), decoder=IdentityDecoder(), individual_cls=DistributedIndividual)
    log = []
    with patched():
        r = dasync.steady_state(Client(c['order']), 12, 4, 4, rep, prob, [ops.tournament_selection, ops.clone, muts[c['mut'] % len(muts)](), ops.pool(size=1 + c['k'] % 2)],
                                inserter=[dasync.greedy_insert_into_pop, dasync.tournament_insert_into_pop][c['k'] % 2],
                                evaluated_probe=lambda i: log.append([genome_value(i.genome), i.fitness]), context=cx)
    return [dump(r), log]


def cgp_run(c, cx):
    d = cgp.CGPDecoder([lambda *a: sum(a), lambda *a: a[0] - a[1]], 2, 1, 2, 2, 2)
    rep = Representation(d.initializer(), decoder=d)
    prob = FunctionProblem(lambda e: float(e([2.0, 3.0])[0]), c['mx'])
    r = generational_ea(c['gens'], 4, prob, rep, [ops.tournament_selection, ops.clone, cgp.cgp_mutate(d, expected_num_mutations=2), ops.evaluate, ops.pool(size=4)], context=cx)
    return dump(r)


def pitt(c, cx):
    d = rules.PittRulesDecoder(spaces.Box(low=0, high=1.0, shape=(1, 2), dtype=np.float32, seed=c['k']), spaces.Discrete(4, seed=c['k'] + 1))
    gs = [d.initializer(1 + c['k'] % 3)() for _ in range(3)]
    return [genome_value(g) for g in gs]


def landscapes(c, cx):
    k = c['k'] % 6
    x = np.array([0.25, -0.5, 0.125])
    if k == 0:
        p = rp.NoisyQuarticProblem()
        return [p.evaluate(x) for _ in range(3)]
    if k == 1:
        p = rp.QuadraticFamilyProblem.generate(3, 4, num_global_optima=2)
        return [p.evaluate(x), [o.tolist() for o in p.offset_vectors]]
    if k == 2:
        return [rp.random_orthonormal_matrix(3).tolist()]
    if k == 3:
        return [rp.TranslatedProblem.random(rp.SpheroidProblem(), (-1.0, 1.0), 3).evaluate(x)]
    if k == 4:
        return [rp.MatrixTransformedProblem.random_orthonormal(rp.RastriginProblem(), 3).evaluate(x)]
    return [AverageFitnessProblem(rp.NoisyQuarticProblem(), 4).evaluate(x)]


def convexity(c, cx):
    prob = rp.RastriginProblem()
    rep = Representation(create_real_vector([(-5, 5)] * 2))
    d = Individual.evaluate_population(rep.create_population(5, prob))
    e = ELAConvexity(prob, rep, d, num_convexity_tests=12)
    return [list(map(float, e.deltas)), e.convex_p(), e.linear_deviation()]


def seeded_init(c, cx):
    init, _ = REPS[c['rep']]
    f = initialize_seeded(init(), [init()() for _ in range(c['k'] % 3)])
    return [genome_value(f()) for _ in range(5)]


def ties(c, cx):
    """Everything that breaks ties at random."""
    prob = FunctionProblem(total, c['mx'])
    pop = [Individual(np.array([k]), problem=prob) for k in range(6)]
    for i in pop:
        i.fitness = math.nan if c['k'] % 2 else 1.0
    kids = [i.clone() for i in pop]
    for i in kids:
        i.fitness = math.nan if c['k'] % 2 else 1.0
    return [dump(ops.truncation_selection(list(kids), 3, parents=list(pop))), dump(ops.elitist_survival(list(kids), list(pop), k=2)), dump(ops.insertion_selection(list(kids), list(pop))),
            dump([max(pop), min(pop), probe.best_of_gen(pop)]), dump(sorted(pop))]


RUNS = {f.__name__: f for f in (generational, islands, cooperative, search, nsga2, solver, steady, cgp_run, pitt, landscapes, convexity, seeded_init, ties)}


def seeded(c, name, seed, glob):
    cx = GLOBAL if glob else {'leap': {'distrib': {'non_viable': 0}}}
    if glob:
        cx.clear()
        cx['leap'] = {'distrib': {'non_viable': 0}}
    random.seed(seed)
    np.random.seed(seed % 2 ** 32)
    r = RUNS[name](c, cx)
    return repr(r), random.getstate(), np.random.get_state()[1].tolist(), np.random.get_state()[2]


base = dict(rep=st.sampled_from(sorted(REPS)), sel=st.sampled_from(sorted(SELECT)), xo=st.sampled_from(sorted(XOVER)), mut=st.integers(0, 5), k=st.integers(0, 11),
            gens=st.integers(1, 5), mx=bools, order=st.lists(st.integers(0, 9), min_size=1, max_size=12), glob=bools, other=st.sampled_from(sorted(RUNS)), oseed=seeds)


@M.sub(case(name=st.sampled_from(sorted(RUNS)), **base), n=500, shards=8, mult=10, rule='another run happened in between')
def repeat(c, ctx):
    a = seeded(c, c['name'], c['seed'], c['glob'])
    junk = [object() for _ in range(c['k'] * 7)]
    try:
        seeded(dict(c, k=c['k'] + 1), c['other'], c['oseed'], c['glob'])
    except Exception:
        pass
    b = seeded(c, c['name'], c['seed'], c['glob'])
    check(a[0] == b[0], '%s: the same seed gave two different results:\n%.600s\n%.600s', c['name'], a[0], b[0])
    check(a[1:] == b[1:], '%s: the same seed left the random generators in different states', c['name'])
    del junk
    ctx.nt()
    ctx.label(c['name'])
    ctx.label('global context', c['glob'])


@M.sub(case(name=st.sampled_from(['generational', 'search', 'islands', 'solver', 'steady', 'seeded_init', 'convexity', 'cgp_run']), **base), n=60, shards=4, mult=8, rule='the real-valued representation, so that two runs cannot agree by chance')
def different_seeds(c, ctx):
    """Different seeds give different runs (the seed is really used), and unseeded runs do not repeat."""
    c = dict(c, rep='real', sel='tournament')
    name = c['name']
    if name == 'cgp_run':
        name = 'search'
    a = seeded(c, name, c['seed'], c['glob'])
    cx = {'leap': {'distrib': {'non_viable': 0}}}
    b = repr(RUNS[name](c, cx))
    check(a[0] != b, '%s: continuing without reseeding repeated the run exactly', name)
    d = seeded(c, name, c['seed'] + 1, c['glob'])
    check(a[0] != d[0], '%s: seeds %d and %d gave the same run', name, c['seed'], c['seed'] + 1)
    ctx.nt()
    ctx.label(name)
