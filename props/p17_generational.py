from common import *
import itertools
from leap_ec import ops, Representation
from leap_ec.algorithm import generational_ea, stop_at_generation
from leap_ec.global_vars import context as GLOBAL
from leap_ec.individual import RobustIndividual
from leap_ec.real_rep.ops import mutate_gaussian

M = Module('P17')
M.assumptions = ['The pipeline returns a fresh list each generation (as every pooling pipeline does).']


class Rec(FunctionProblem):
    """Fitness from a deterministic table keyed by the genome tag."""

    def __init__(self, table, maximize):
        self.calls = []

        def f(p):
            self.calls.append(int(p[0]))
            return table[int(p[0]) % len(table)]
        super().__init__(f, maximize)


fits = st.one_of(st.lists(tied, min_size=3, max_size=9), st.lists(eighths, min_size=3, max_size=20),
                 st.lists(st.one_of(eighths, nan), min_size=4, max_size=12))


@M.sub(case(table=fits, maximize=bools, pop=upto(1, 8, 24, 70), out=upto(1, 10, 24, 70), gens=upto(0, 7, 12, 33, 75),
            start=upto(0, 4, 100), k=st.one_of(st.none(), upto(0, 5, 12, 20, 40)), stop=st.one_of(st.none(), st.integers(0, 6)),
            useinf=bools, init_eval=st.sampled_from([False, True, 'copies']), cx=st.sampled_from(['own', 'global'])), n=900, shards=3,
       rule='at least two generations actually run')
def history(c, ctx):
    problem = Rec(c['table'], c['maximize'])
    tag = itertools.count()
    rep = Representation(initialize=lambda: np.array([next(tag), 7]))
    cx = {'leap': {}} if c['cx'] == 'own' else GLOBAL
    seen_in, seen_out, gens_at, stop_calls, snaps = [], [], [], [], []
    init_calls = []
    given = []
    c = dict(c, gens=c['gens'] + (c['start'] if c['start'] > 4 else 0))

    def enter(pop):
        check(isinstance(pop, list), 'pipeline input is %r', type(pop))
        seen_in.append(list(pop))
        gens_at.append(cx['leap']['generation'])
        return pop

    def renew(stream):
        for ind in stream:
            ind.genome = np.array([next(tag), 7])
            ind.fitness = None
            yield ind

    def leave(pop):
        seen_out.append(list(pop))
        snaps.append([p.fitness for p in pop])
        return pop

    def stop(pop):
        stop_calls.append(list(pop))
        return c['stop'] is not None and len(stop_calls) > c['stop']

    def init_evaluate(pop):
        init_calls.append((list(pop), cx['leap'].get('generation')))
        check(all(p.fitness is None for p in pop), 'initial population was evaluated early')
        for p in pop:
            p.fitness = problem.evaluate(p.decode())
        if c['init_eval'] == 'copies':      # a distributed evaluation hands back copies
            pop = copy.deepcopy(pop)
            given.extend(pop)
        return pop
    kw = dict(max_generations=math.inf if (c['useinf'] and c['stop'] is not None) else c['gens'], pop_size=c['pop'],
              problem=problem, representation=rep,
              pipeline=[enter, ops.naive_cyclic_selection, ops.clone, renew, ops.evaluate, ops.pool(size=c['out']), leave])
    if c['k'] is not None:
        kw['k_elites'] = c['k']
    if c['stop'] is not None:
        kw['stop'] = stop
    if c['start']:
        kw['start_generation'] = c['start']
    if c['cx'] == 'own':
        kw['context'] = cx
    if c['init_eval']:
        kw['init_evaluate'] = init_evaluate
    final = generational_ea(**kw)

    limit = kw['max_generations'] - c['start']
    ran = len(seen_in)
    want = limit if c['stop'] is None else min(limit, c['stop'])
    want = max(0, want)
    check(ran == want, 'ran %d generations, expected %r (max %r, start %d, stop %r)', ran, want,
          kw['max_generations'], c['start'], c['stop'])
    check(gens_at == list(range(c['start'], c['start'] + ran)), 'generation seen by the pipeline: %r', gens_at)
    check(cx['leap']['generation'] == c['start'] + ran, 'final generation %r', cx['leap']['generation'])
    if c['init_eval']:
        check(len(init_calls) == 1 and len(init_calls[0][0]) == c['pop'], 'initial evaluation calls: %r', init_calls)
        check(init_calls[0][1] == c['start'], 'generation during initial evaluation: %r', init_calls[0][1])
    check(len(problem.calls) == c['pop'] + ran * c['out'], '%d evaluations, expected %d', len(problem.calls), c['pop'] + ran * c['out'])
    check(sorted(problem.calls) == list(range(c['pop'] + ran * c['out'])), 'initialised or evaluated the wrong genomes')
    # chain: input of generation i+1 = survivors of generation i
    pops = seen_in + [final]
    check(isinstance(final, list), 'returned %r', type(final))
    for p in pops:
        for i in p:
            check(i.fitness is not None, 'unevaluated individual in the population')
            f = c['table'][int(i.genome[0]) % len(c['table'])]
            check(close(i.fitness, f), 'fitness %r is not that of the genome (%r)', i.fitness, f)
    check(len(pops[0]) == c['pop'], 'initial population of %d', len(pops[0]))
    if c['init_eval'] == 'copies':
        check(same_list(pops[0], given), 'the run does not start from what init_evaluate returned')
    if c['stop'] is not None:
        for a, b in zip(stop_calls, pops):
            check(same_list(a, b), 'stop condition saw a different population')
    k = 1 if c['k'] is None else c['k']
    for g in range(ran):
        par, off, nxt = pops[g], seen_out[g], pops[g + 1]
        check(len(nxt) == len(off), 'generation %d: %d offspring but %d survivors', g, len(off), len(nxt))
        ranked = sorted((score(p.fitness, c['maximize']) for p in par), reverse=True)
        pool = sorted([score(p.fitness, c['maximize']) for p in off] + ranked[:k], reverse=True)
        got = sorted((score(p.fitness, c['maximize']) for p in nxt), reverse=True)
        check(got == pool[:len(off)], 'generation %d survivors %r, expected %r', g, got, pool[:len(off)])
        old = [i for i in nxt if any(i is p for p in par)]
        new = [i for i in nxt if any(i is p for p in off)]
        check(len(old) + len(new) == len(nxt) and len(old) <= k, 'survivors from elsewhere, or too many parents')
        check(len({id(i) for i in nxt}) == len(nxt), 'an individual survived twice')
        if k >= 1:
            check(max(got) >= max(ranked), 'best fitness got worse in generation %d', g)
    ctx.nt(ran >= 2)
    ctx.label('k=%s' % c['k'])
    ctx.label('stopped early', c['stop'] is not None and ran < limit)


@M.sub(case(maximize=bools, pop=upto(2, 10, 40), gens=upto(1, 12, 40), mode=st.sampled_from(['elite', 'trunc', 'both']),
            k=st.integers(1, 3), dim=st.integers(1, 3), fail=st.sampled_from([0.0, 0.3]), sel=st.sampled_from(['tour', 'prop', 'rand', 'cyc'])),
       n=250, shards=3, rule='at least three generations')
def best_never_worse(c, ctx):
    """Stochastic real-coded EA; best fitness is monotone, fitness is current."""
    def f(p):
        if c['fail'] and (abs(float(p[0])) * 1000) % 1 < c['fail'] / 3:
            raise RuntimeError('boom')
        return float(np.sum(np.asarray(p) ** 2))
    problem = FunctionProblem(f, c['maximize'])
    hist = []

    def rec(pop):
        hist.append([(i, i.fitness) for i in pop])
        return pop
    last = {}

    def remember(pop):
        last['parents'] = list(pop)
        rec(pop)
        return pop

    def trunc(pop):
        return ops.truncation_selection(pop, size=c['pop'], parents=last['parents'])
    sel = {'tour': ops.tournament_selection, 'rand': ops.random_selection, 'cyc': ops.cyclic_selection,
           'prop': ops.tournament_selection(k=3)}[c['sel']]
    pipeline = [remember, sel, ops.clone, mutate_gaussian(std=0.5, expected_num_mutations=1, bounds=(-2, 2)),
                ops.UniformCrossover(p_swap=0.3), ops.evaluate, ops.pool(size=c['pop'])]
    if c['mode'] != 'elite':
        pipeline.append(trunc)
    cx = {'leap': {}}
    final = generational_ea(max_generations=c['gens'], pop_size=c['pop'], problem=problem,
                            representation=Representation(initialize=lambda: np.random.uniform(-2, 2, c['dim']), individual_cls=RobustIndividual),
                            pipeline=pipeline, k_elites=0 if c['mode'] == 'trunc' else c['k'], context=cx)
    rec(final)
    check(len(hist) == c['gens'] + 1, '%d generations', len(hist) - 1)
    best = [max(score(x, c['maximize']) for _, x in h) for h in hist]
    for a, b in zip(best, best[1:]):
        # individuals closer than 1e-9 (relative) count as equal
        check(b >= a or (a[0] == b[0] and close(a[1], b[1], 1e-7, 0.0)), 'best fitness went from %r to %r', a, b)
    for h in hist:
        check(len(h) == c['pop'], 'population size %d', len(h))
        for i, x in h:
            try:
                t = f(i.genome)
            except RuntimeError:
                t = math.nan
            check(close(x, t), 'fitness %r is not that of the genome %r', x, t)
            check(close(i.fitness, x), 'fitness changed later')
    ctx.nt(c['gens'] >= 3)
