"""Individuals, problems and decoders survive the trip to a worker and back."""
from common import *
import random
from distributed.protocol.pickle import dumps, loads
from gymnasium import spaces
from leap_ec import ops
from leap_ec import problem as pr
from leap_ec.binary_rep import decoders as bd, problems as bp
from leap_ec.distrib.individual import DistributedIndividual
from leap_ec.executable_rep import cgp, executable as ex, neural_network as nn, rules
from leap_ec.individual import RobustIndividual
from leap_ec.multiobjective import problems as mp
from leap_ec.real_rep import problems as rp
from leap_ec.segmented_rep.decoders import SegmentedDecoder

M = Module('P48')
M.boost = 3
M.assumptions = ['The serialisation is the one the distributed scheduler uses (pickle with fallback to cloudpickle); user functions are closures.']

IDEN = IdentityDecoder


def vec(d, n=4, k=8.0):
    return np.resize(np.array(d, dtype=float), n) / k


def _real(make):
    return lambda c: (make(c), IDEN(), vec(c['d'], c['dim']))


R = {
    'sphere': _real(lambda c: rp.SpheroidProblem(c['mx'])), 'rastrigin': _real(lambda c: rp.RastriginProblem(a=c['w'], maximize=c['mx'])), 'rosenbrock': _real(lambda c: rp.RosenbrockProblem(c['mx'])),
    'step': _real(lambda c: rp.StepProblem(c['mx'])), 'noisy': _real(lambda c: rp.NoisyQuarticProblem(c['mx'])), 'griewank': _real(lambda c: rp.GriewankProblem(c['mx'])),
    'ackley': _real(lambda c: rp.AckleyProblem(a=c['w'], maximize=c['mx'])), 'weierstrass': _real(lambda c: rp.WeierstrassProblem(maximize=c['mx'])), 'schwefel': _real(lambda c: rp.SchwefelProblem(maximize=c['mx'])),
    'lunacek': _real(lambda c: rp.LunacekProblem(c['dim'], d=c['w'], maximize=c['mx'])), 'gaussian': _real(lambda c: rp.GaussianProblem(width=c['w'], maximize=c['mx'])),
    'shekel': lambda c: (rp.ShekelProblem(maximize=c['mx']), IDEN(), vec(c['d'], 2)), 'langermann': lambda c: (rp.LangermannProblem(maximize=c['mx']), IDEN(), vec(c['d'], 2)),
    'cosine': lambda c: (rp.CosineFamilyProblem(c['w'], [2, 3], [2, 2], maximize=c['mx']), IDEN(), vec(c['d'], 2)),
    'quadratic': _real(lambda c: rp.QuadraticFamilyProblem.generate(c['dim'], 3)),
    'translated': _real(lambda c: rp.TranslatedProblem(rp.SpheroidProblem(c['mx']), np.arange(c['dim']) * c['w'])), 'scaled': _real(lambda c: rp.ScaledProblem(rp.RastriginProblem(maximize=c['mx']), (-c['w'], c['w']))),
    'rotated': _real(lambda c: rp.MatrixTransformedProblem.random_orthonormal(rp.RastriginProblem(maximize=c['mx']), c['dim'])),
    'offset': _real(lambda c: pr.FitnessOffsetProblem(rp.SpheroidProblem(c['mx']), c['w'])), 'average': _real(lambda c: pr.AverageFitnessProblem(rp.NoisyQuarticProblem(c['mx']), 3)),
    'constant': _real(lambda c: pr.ConstantProblem(c['mx'], c['w'])),
    'function': _real(lambda c: FunctionProblem((lambda w: lambda p: float(np.sum(p)) * w)(c['w']), c['mx'])),
    'failing': _real(lambda c: FunctionProblem((lambda w: lambda p: 1 / 0 if p[0] > 0 else float(np.sum(p)) * w)(c['w']), c['mx'])),
    'maxones': lambda c: (bp.MaxOnes(maximize=c['mx']), IDEN(), np.array(c['d'], dtype=int) % 2), 'leading': lambda c: (bp.LeadingOnes(maximize=c['mx']), IDEN(), np.array(c['d'], dtype=int) % 2),
    'target': lambda c: (bp.MaxOnes(target_string=np.array(c['d'][::-1], dtype=int) % 2, maximize=c['mx']), IDEN(), np.array(c['d'], dtype=int) % 2),
    'trap': lambda c: (bp.DeceptiveTrap(c['mx']), IDEN(), np.array(c['d'], dtype=int) % 2), 'twomax': lambda c: (bp.TwoMax(c['mx']), IDEN(), np.array(c['d'], dtype=int) % 2),
    'bin2real': lambda c: (rp.SpheroidProblem(c['mx']), bd.BinaryToRealDecoder((4, -c['w'], c['w']), (4, 0.0, 1.0)), np.resize(np.array(c['d'], dtype=int), 8) % 2),
    'grey': lambda c: (FunctionProblem(lambda p: float(p[0]) - 3.0 * float(p[1]), c['mx']), bd.BinaryToIntGreyDecoder(4, 4), np.resize(np.array(c['d'], dtype=int), 8) % 2),
    'segmented': lambda c: (FunctionProblem(lambda p: float(sum(np.sum(s) for s in p)), c['mx']), SegmentedDecoder(bd.BinaryToIntDecoder(2, 2)), [np.resize(np.array(c['d'], dtype=int), 4) % 2 for _ in range(c['dim'])]),
    'zdt1': lambda c: (mp.ZDT1Problem(4), IDEN(), np.resize(np.array(c['d']) % 97 / 97, 4)), 'zdt6': lambda c: (mp.ZDT6Problem(4), IDEN(), np.resize(np.array(c['d']) % 97 / 97, 4)),
    'net': lambda c: (FunctionProblem(lambda e: float(np.sum(e([0.5, -1.0]))), c['mx']), nn.SimpleNeuralNetworkDecoder((2, 2, 1), [nn.sigmoid, nn.relu, nn.softmax][c['dim'] % 3]), vec(c['d'], 9)),
    'argmax': lambda c: (FunctionProblem(lambda e: float(e([0.5, -1.0])), c['mx']), ex.WrapperDecoder(nn.SimpleNeuralNetworkDecoder((2, 2)), ex.ArgmaxExecutable), vec(c['d'], 6)),
}


def _cgp_plain(c):
    d = cgp.CGPDecoder([lambda *a: float(sum(a)), lambda *a: float(a[0] * a[1])], 2, 1, 2, 2, 2, prune=c['mx'])
    return FunctionProblem(lambda e: float(e([2.0, 3.0])[0]), c['mx']), d, d.initializer()()


def _pitt(c):
    d = rules.PittRulesDecoder(spaces.Box(low=0, high=1.0, shape=(1, 2), dtype=np.float32), spaces.Discrete(4))
    g = [np.array([0.0, (x % 11) / 10, 0.0, 1.0, float(k % 4)]) for k, x in enumerate(c['d'])]
    return FunctionProblem(lambda e: float(sum(int(e(np.array([x / 10, 0.5]))) for x in range(11))), c['mx']), d, g


R['cgp'] = _cgp_plain
R['pitt'] = _pitt
CLS = {'plain': Individual, 'robust': RobustIndividual, 'distributed': DistributedIndividual}


def direction(p):
    return getattr(p, 'maximize', None) if hasattr(p, 'maximize') else p.wrapped_problem.maximize


def attrs(i):
    skip = {'problem', 'decoder', '_phenome', 'phenome'}
    return {k: (genome_value(v) if k == 'genome' else repr(v)) for k, v in vars(i).items() if k not in skip}


def safe_eval(i, seed):
    random.seed(seed)
    np.random.seed(seed % 2 ** 32)
    try:
        i.evaluate()
        return repr(np.asarray(i.fitness).tolist())
    except Exception as e:
        return type(e).__name__


@M.sub(case(kind=st.sampled_from(sorted(R)), d=st.lists(st.integers(-40, 40), min_size=2, max_size=7), dim=st.integers(2, 4), mx=bools, w=st.sampled_from([0.5, 1.0, 3.0]), cls=st.sampled_from(sorted(CLS)),
            trips=st.integers(1, 3), before=bools, extra=st.booleans(), parents=bools), n=1500, shards=8, rule='evaluated on both sides of the trip')
def roundtrip(c, ctx):
    prob, dec, g = R[c['kind']](c)
    ind = CLS[c['cls']](g, decoder=dec, problem=prob)
    if c['parents']:
        ind = ind.clone()
    if c['extra']:
        ind.birth = 17
        ind.note = ['a', {'b': 2}]
    if c['before']:
        safe_eval(ind, c['seed'])
    there = ind
    for _ in range(c['trips']):
        there = loads(dumps(there))
    check(type(there) is type(ind), 'class %r became %r', type(ind), type(there))
    check(attrs(there) == attrs(ind), 'attributes changed in transport: %r became %r', attrs(ind), attrs(there))
    up = direction(prob)
    check(repr(direction(there.problem)) == repr(up), 'direction changed: %r', direction(there.problem))
    snapshot = genome_value(ind.genome)
    a = safe_eval(ind, c['seed'])
    b = safe_eval(there, c['seed'])
    check(a == b, '%s: evaluates to %s here and %s after transport', c['kind'], a, b)
    check(genome_value(there.genome) == snapshot, 'genome changed by evaluating elsewhere')
    back = loads(dumps(there))
    check({k: v for k, v in attrs(back).items() if 'time' not in k and k != 'exception'} == {k: v for k, v in attrs(there).items() if 'time' not in k and k != 'exception'}, 'attributes changed on the way back: %r, %r', attrs(there), attrs(back))
    check(back.uuid == ind.uuid and back.parents == ind.parents, 'identity or parents changed')
    scalar = not hasattr(up, '__len__')
    if scalar and isinstance(ind.fitness, (int, float, np.floating, np.integer)) and not math.isnan(ind.fitness) and not isinstance(back.fitness, type(None)):
        check(back == ind and not back < ind and not back > ind, 'no longer equivalent to the original')
        lo, hi = ind.clone(), loads(dumps(ind.clone()))
        lo.fitness, hi.fitness = 1.0, 2.0
        check((hi > lo) == bool(up) and (lo > hi) == (not up), 'comparison across transport disagrees with the direction')
    kid = back.clone()
    check(kid.parents == {ind.uuid} and kid.uuid != ind.uuid and kid.fitness is None, 'clone of a transported individual: parents %r', kid.parents)
    ctx.nt(c['before'])
    ctx.label(c['kind'])


@M.sub(case(kind=st.sampled_from(sorted(R)), d=st.lists(st.integers(-40, 40), min_size=2, max_size=7), dim=st.integers(2, 4), mx=bools, w=st.sampled_from([0.5, 1.0, 3.0]), n=st.integers(2, 5)), n=300, shards=3, rule='a population of at least two')
def population(c, ctx):
    """A population sent in one message keeps one shared problem and decoder per population, its order, and fitnesses."""
    prob, dec, g = R[c['kind']](c)
    pop = [Individual(copy.deepcopy(g), decoder=dec, problem=prob) for _ in range(c['n'])]
    for k, i in enumerate(pop):
        i.tag = k
    q = loads(dumps(pop))
    check([i.tag for i in q] == list(range(c['n'])), 'order changed')
    check([i.uuid for i in q] == [i.uuid for i in pop], 'identifiers changed')
    check(all(i.problem is q[0].problem and i.decoder is q[0].decoder for i in q), 'the shared problem was duplicated')
    check(all(not np.shares_memory(np.asarray(a.genome), np.asarray(b.genome)) for a in q for b in q if a is not b and isinstance(a.genome, np.ndarray)), 'genomes share storage after transport')
    random.seed(c['seed'])
    np.random.seed(c['seed'])
    try:
        a = [repr(np.asarray(f).tolist()) for f in Individual.evaluate_population(pop) and [i.fitness for i in pop]]
    except ZeroDivisionError:
        a = None
    random.seed(c['seed'])
    np.random.seed(c['seed'])
    try:
        b = [repr(np.asarray(f).tolist()) for f in Individual.evaluate_population(q) and [i.fitness for i in q]]
    except ZeroDivisionError:
        b = None
    check(a == b, 'population evaluates to %r here, %r after transport', a, b)
    ctx.nt()
    ctx.label(c['kind'])


@M.sub(case(kind=st.sampled_from(sorted(R)), d=st.lists(st.integers(-40, 40), min_size=2, max_size=7), dim=st.integers(2, 4), mx=bools, w=st.sampled_from([0.5, 1.0, 3.0])), n=400, shards=2, rule='every case')
def pipeline_clone(c, ctx):
    """deepcopy-based and streaming cloning give individuals that behave the same as transported ones."""
    prob, dec, g = R[c['kind']](c)
    ind = RobustIndividual(g, decoder=dec, problem=prob)
    a = safe_eval(ind, c['seed'])
    kid = next(ops.clone(iter([loads(dumps(ind))])))
    b = safe_eval(kid, c['seed'])
    check(a == b, 'a clone made elsewhere evaluates to %s, the original to %s', b, a)
    dc = copy.deepcopy(ind)
    check(safe_eval(dc, c['seed']) == a, 'a deep copy evaluates differently')
    ctx.nt()
