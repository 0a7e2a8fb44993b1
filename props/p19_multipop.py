from common import *
import itertools
from leap_ec import ops, Representation
from leap_ec.algorithm import multi_population_ea
from leap_ec.global_vars import context as GLOBAL

M = Module('P19')


@M.sub(case(npop=upto(1, 5, 9, 12, 20), size=upto(1, 5, 20), out=upto(1, 6, 20), gens=upto(0, 5, 20), probs=bools, reps=bools,
            sub=bools, stop=st.one_of(st.none(), st.integers(0, 4)), useinf=bools, init_eval=bools,
            offs=st.lists(eighths, min_size=5, max_size=5).map(lambda l: [x + i for i in range(4) for x in l]), cx=st.sampled_from(['own', 'global'])), n=700, shards=3,
       rule='at least two subpopulations and two generations')
def history(c, ctx):
    n = c['npop']
    cx = {'leap': {}} if c['cx'] == 'own' else GLOBAL
    tag = itertools.count()
    evals = []

    def mkproblem(k):
        def f(p):
            evals.append((k, int(p[0]), int(p[1])))
            return float(p[0]) + c['offs'][k if c['probs'] else 0]
        return FunctionProblem(f, True)

    def mkrep(k):
        return Representation(initialize=lambda: np.array([next(tag), 100 + k]))
    problems = [mkproblem(k) for k in range(n)] if c['probs'] else mkproblem(0)
    reps = [mkrep(k) for k in range(n)] if c['reps'] else mkrep(0)
    log = []          # (generation, subpop, stage, population)
    state = {}        # subpop -> last recorded result
    init_pops = []

    def init_evaluate(pop):
        init_pops.append(list(pop))
        for p in pop:
            p.evaluate()
        return pop

    def rec(stage):
        def f(pop):
            check(isinstance(pop, list), 'operator got %r', type(pop))
            k, g = cx['leap']['current_subpopulation'], cx['leap']['generation']
            log.append((g, k, stage, list(pop)))
            subs = cx['leap']['subpopulations']
            check(len(subs) == n, 'context holds %d subpopulations', len(subs))
            for j in range(n):
                if j in state and not (j == k and stage != 'in'):
                    check(same_list(subs[j], state[j]), 'context shows a stale subpopulation %d', j)
            return pop
        return f

    def renew(s):
        for i in s:
            i.genome = np.array([next(tag), i.genome[1]])
            i.fitness = None
            yield i

    def last(k):
        def f(pop):
            out = rec('sub%d' % k)(pop)
            state[k] = list(out)
            return out
        return f

    def shared_out(pop):
        rec('shared')(pop)
        if not c['sub']:
            state[cx['leap']['current_subpopulation']] = list(pop)
        return pop
    shared = [rec('in'), ops.naive_cyclic_selection, ops.clone, renew, ops.evaluate, ops.pool(size=c['out']), shared_out]
    stops = []

    def stop(pops):
        stops.append([list(p) for p in pops])
        return c['stop'] is not None and len(stops) > c['stop']
    kw = dict(max_generations=math.inf if c['useinf'] and c['stop'] is not None else c['gens'], num_populations=n, pop_size=c['size'],
              problem=problems, representation=reps, shared_pipeline=shared)
    if c['sub']:
        kw['subpop_pipelines'] = [[last(k)] for k in range(n)]
    if c['stop'] is not None:
        kw['stop'] = stop
    if c['cx'] == 'own':
        kw['context'] = cx
    if c['init_eval']:
        kw['init_evaluate'] = init_evaluate
    pops = multi_population_ea(**kw)
    ran = int(min(kw['max_generations'], math.inf if c['stop'] is None else c['stop']))
    stages = ['in', 'shared'] + (['sub'] if c['sub'] else [])
    want = [(g, k, s + (str(k) if s == 'sub' else '')) for g in range(ran) for k in range(n) for s in stages]
    check([x[:3] for x in log] == want, 'operators ran as %r, expected %r', [x[:3] for x in log][:12], want[:12])
    check(cx['leap']['generation'] == ran, 'final generation %r after %d', cx['leap']['generation'], ran)
    check(isinstance(pops, list) and len(pops) == n, 'returned %d subpopulations', len(pops))
    check(cx['leap']['subpopulations'] is not None and all(same_list(a, b) for a, b in zip(cx['leap']['subpopulations'], pops)),
          'context does not show the final subpopulations')
    # initial populations
    if ran:
        init = [log[[x[:2] for x in log].index((0, k))][3] for k in range(n)]
    else:
        init = pops
    if c['init_eval']:
        check(len(init_pops) == n and all(same_list(a, b) for a, b in zip(init_pops, init)), 'initial evaluation')
    lineage = {}
    for k in range(n):
        check(len(init[k]) == c['size'], 'subpopulation %d starts with %d', k, len(init[k]))
        for i in init[k]:
            check(i.fitness is not None, 'initial individual not evaluated')
            check(i.problem is (problems[k] if c['probs'] else problems), 'wrong problem in subpopulation %d', k)
            check(int(i.genome[1]) == 100 + (k if c['reps'] else 0), 'wrong representation in subpopulation %d', k)
            check(i.uuid not in lineage, 'individual in two subpopulations')
            lineage[i.uuid] = k
    prev = {k: init[k] for k in range(n)}
    for g, k, s, pop in log:
        if s == 'in':
            check(same_list(pop, prev[k]), 'subpopulation %d of generation %d is not the result of the previous one', k, g)
        else:
            check(len(pop) == c['out'], 'size %d, expected %d', len(pop), c['out'])
            for i in pop:
                if i.uuid not in lineage:
                    check(len(i.parents) == 1, 'parents %r', i.parents)
                    lineage[i.uuid] = lineage[next(iter(i.parents))]
                check(lineage[i.uuid] == k, 'individual of subpopulation %d appeared in %d', lineage[i.uuid], k)
            prev[k] = pop
    for k in range(n):
        check(same_list(pops[k], prev[k]), 'returned subpopulation %d is not the last result', k)
        for i in pops[k]:
            check(i.fitness == float(i.genome[0]) + c['offs'][k if c['probs'] else 0], 'fitness of another problem')
    check(len(evals) == n * (c['size'] + ran * c['out']), '%d evaluations', len(evals))
    if c['stop'] is not None:
        for g, s in enumerate(stops[:ran]):
            for k in range(n):
                at = [x for x in log if x[0] == g and x[1] == k and x[2] == 'in'][0][3]
                check(same_list(s[k], at), 'stop condition saw another population')
    ctx.nt(n >= 2 and ran >= 2)
