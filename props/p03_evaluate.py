from common import *
import genomes as G
import itertools
from toolz import pipe
from leap_ec import ops
from leap_ec.decoder import Decoder
from leap_ec.individual import RobustIndividual, WholeEvaluatedIndividual
from leap_ec.problem import (ScalarProblem, AverageFitnessProblem, ConstantProblem,
                             FitnessOffsetProblem)
from leap_ec.binary_rep.problems import MaxOnes, LeadingOnes
from leap_ec.real_rep.problems import SpheroidProblem

M = Module('P03')
M.boost = 3


class Weighted(ScalarProblem):
    """Position-sensitive deterministic objective that records its inputs."""

    def __init__(self, maximize=True):
        super().__init__(maximize)
        self.seen = []

    def evaluate(self, phenome, *args, **kwargs):
        vals = G.flat(phenome)
        self.seen.append(list(vals))
        return float(sum((i + 1) * float(v) for i, v in enumerate(vals)))


class Shift(Decoder):
    def __init__(self, k):
        self.k = k

    def decode(self, genome, *args, **kwargs):
        return [float(x) + self.k for x in G.flat(genome)]


def expected(genome, k):
    return float(sum((i + 1) * (float(v) + k) for i, v in enumerate(G.flat(genome))))


ROUTES = ['single', 'bulk', 'stream', 'stream_pool', 'grouped', 'grouped_curried']


def evaluate_by(route, pop, chunk):
    if route == 'single':
        for i in pop:
            f = i.evaluate()
            check(f == i.fitness, 'evaluate() returned %r, set %r', f, i.fitness)
        return pop
    if route == 'bulk':
        return type(pop[0]).evaluate_population(pop)
    if route == 'stream':
        return [next(g) for g in [ops.evaluate(iter(pop))] for _ in pop]
    if route == 'stream_pool':
        return pipe(iter(pop), ops.evaluate, ops.pool(size=len(pop)))
    if route == 'grouped':
        return ops.grouped_evaluate(pop, max_individuals_per_chunk=chunk) \
            if chunk else ops.grouped_evaluate(pop)
    return ops.grouped_evaluate(max_individuals_per_chunk=chunk)(pop)


genome = st.lists(st.integers(-9, 9), min_size=1, max_size=5)


@M.sub(case(pop=st.lists(genome, min_size=1, max_size=40),
            kind=st.sampled_from(['f1', 'i1', 'list', 'segs', 'f2']),
            shift=st.integers(-3, 3), chunk=st.one_of(st.none(), st.integers(1, 15), st.integers(16, 45)),
            cls=st.sampled_from(['Individual', 'Robust', 'Whole']),
            rounds=st.lists(st.tuples(
                st.sampled_from(ROUTES),
                st.lists(st.tuples(st.integers(0, 11), st.integers(0, 9), st.integers(-9, 9)), max_size=4),
                bools), min_size=1, max_size=4)),
       n=700, shards=2,
       rule='population of >= 2 with a genome changed between two evaluation rounds, '
            'or a chunk size that does not divide the population')
def history(c, ctx):
    cls = {'Individual': Individual, 'Robust': RobustIndividual, 'Whole': WholeEvaluatedIndividual}[c['cls']]
    dec = Shift(c['shift']) if c['kind'] != 'f1' or c['shift'] else IdentityDecoder()
    k = c['shift'] if isinstance(dec, Shift) else 0
    prob = Weighted(True)
    pop = [cls(G.build(c['kind'], g), decoder=dec, problem=prob) for g in c['pop']]
    original = list(pop)
    for r, (route, pokes, look) in enumerate(c['rounds']):
        for i, pos, v in pokes:
            ind = pop[i % len(pop)]
            if look:
                ind.phenome     # a probe looked at the phenome earlier
            G.poke(ind.genome, c['kind'], pos, v)
            if pos % 2:         # or still carrying the fitness of its old genome
                ind.fitness = None
            ctx.label('poked-after-eval', r > 0)
        before = [genome_value(i.genome) for i in pop]
        prob.seen = []
        out = evaluate_by(route, pop, c['chunk'])
        out = list(out)
        check(same_list(out, original), '%s changed membership or order', route)
        check([genome_value(i.genome) for i in pop] == before, '%s changed a genome', route)
        for ind in pop:
            want = expected(ind.genome, k)
            check(ind.fitness == want, '%s: fitness %r, problem gives %r for %r', route,
                  ind.fitness, want, ind.genome)
        seen = sorted(map(str, prob.seen))
        need = sorted(str([float(x) + k if isinstance(dec, Shift) else x
                           for x in G.flat(i.genome)]) for i in pop)
        check(set(seen) == set(need), '%s evaluated other phenomes', route)
        ctx.label(route)
        ctx.nt(len(pop) > 1 and (r > 0 and len(pokes) > 0))
        ctx.nt(bool(c['chunk']) and len(pop) % c['chunk'] != 0 and route.startswith('grouped'))


PROBS = {'maxones': (lambda: MaxOnes(), 'bits'), 'leading': (lambda: LeadingOnes(), 'bits'),
         'sphere': (lambda: SpheroidProblem(), 'real'), 'const': (lambda: ConstantProblem(c=4.5), 'real'),
         'avg': (lambda: AverageFitnessProblem(SpheroidProblem(), n=3), 'real'),
         'offset': (lambda: FitnessOffsetProblem(SpheroidProblem(), 2.5), 'real'),
         'avgavg': (lambda: AverageFitnessProblem(AverageFitnessProblem(SpheroidProblem(), n=2), n=2), 'real'),
         'func': (lambda: FunctionProblem(lambda x: float(np.prod(x)), True), 'real')}


@M.sub(case(prob=st.sampled_from(sorted(PROBS)),
            pop=st.lists(st.lists(st.integers(0, 1), min_size=4, max_size=4), min_size=1, max_size=14),
            chunk=st.one_of(st.none(), st.integers(1, 16)), route=st.sampled_from(ROUTES)),
       n=500, rule='population of at least two individuals')
def builtin_problems(c, ctx):
    """Every route works for every kind of provided problem and agrees."""
    mk, typ = PROBS[c['prob']]
    prob = mk()
    gs = [np.array(g) if typ == 'bits' else np.array(g) * 1.25 + 0.5 for g in c['pop']]
    pop = [Individual(g, decoder=IdentityDecoder(), problem=prob) for g in gs]
    out = list(evaluate_by(c['route'], pop, c['chunk']))
    check(same_list(out, pop), 'membership/order changed')
    for g, ind in zip(gs, out):
        check(close(ind.fitness, prob.evaluate(g)), '%s on %s: %r != %r', c['route'],
              c['prob'], ind.fitness, prob.evaluate(g))
    ctx.nt(len(pop) > 1)
    ctx.label(c['prob'])


@M.sub(case(n=st.integers(2, 10), odd=st.integers(0, 9), chunk=st.one_of(st.none(), st.integers(1, 10))),
       n=150, rule='every case: one member on another problem')
def mixed_problems_rejected(c, ctx):
    p1, p2 = Weighted(), Weighted()
    odd = c['odd'] % c['n']
    pop = [Individual(np.array([i]), problem=p2 if i == odd else p1) for i in range(c['n'])]
    ctx.nt()
    try:
        if c['chunk']:
            ops.grouped_evaluate(pop, max_individuals_per_chunk=c['chunk'])
        else:
            ops.grouped_evaluate(pop)
    except Exception:
        check(all(i.fitness is None for i in pop), 'rejected, yet assigned fitness')
        return
    raise Violation('grouped evaluation accepted a population with different problems')


@M.sub(case(n=st.integers(0, 10), v=any_fit, pre=bools), n=200, rule='non-empty population')
def constant(c, ctx):
    prob = Weighted()
    pop = [Individual(np.array([i]), problem=prob) for i in range(c['n'])]
    if c['pre']:
        for i in pop:
            i.evaluate()
    prob.seen = []
    src = list(pop)
    out = ops.const_evaluate(pop, c['v']) if c['pre'] else ops.const_evaluate(value=c['v'])(pop)
    check(same_list(out, src), 'membership/order changed')
    check(all(repr(i.fitness) == repr(c['v']) for i in out), 'wrong constant')
    check(not prob.seen, 'constant evaluation consulted the problem')
    check([i.genome[0] for i in out] == list(range(c['n'])), 'genome changed')
    ctx.nt(c['n'] > 0)


class WholeProblem(ScalarProblem):
    def evaluate(self, phenome, *args, **kwargs):
        ind = kwargs['individual'] if 'individual' in kwargs else None
        check(ind is not None, 'whole individual not passed')
        return float(sum(G.flat(ind.genome))) + 1000 * len(phenome)


@M.sub(case(pop=st.lists(genome, min_size=1, max_size=8)), n=200,
       rule='at least two individuals')
def whole(c, ctx):
    pop = [WholeEvaluatedIndividual(np.array(g), problem=WholeProblem(True)) for g in c['pop']]
    out = WholeEvaluatedIndividual.evaluate_population(pop)
    for g, i in zip(c['pop'], out):
        check(i.fitness == sum(g) + 1000 * len(g), 'whole-individual evaluation wrong')
    ctx.nt(len(pop) > 1)
