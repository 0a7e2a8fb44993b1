from common import *
import io
import logging
import random
from fakedask import Client, patched
from leap_ec import ops
from leap_ec.distrib.asynchronous import greedy_insert_into_pop, steady_state, tournament_insert_into_pop
from leap_ec.distrib.individual import DistributedIndividual
from leap_ec.individual import RobustIndividual
from leap_ec.multiobjective.asynchronous import steady_state_nsga_2
from leap_ec.representation import Representation
from multi import MO, peel

M = Module('P34')
M.assumptions = ['A stand-in for the dask client (submit, map, gather, as_completed) lets the test choose the completion order; workers themselves do not crash.',
                 'Known finding: steady-state NSGA-II cannot rank individuals whose evaluation failed.']
logging.disable(logging.CRITICAL)

MO_FINDING = "a failed evaluation makes steady-state NSGA-II raise"


def sched():
    return st.lists(st.integers(0, 30), min_size=1, max_size=30)


ERRORS = [ValueError, StopIteration, ZeroDivisionError, KeyError, AssertionError, RuntimeError, TypeError]


class World:
    """Problem with scripted failures, recording everything."""

    def __init__(self, fails, maximize, mo=False):
        self.evals = []
        self.fails = fails
        self.mo = mo

        def f(p):
            k = len(self.evals)
            self.evals.append(float(p[0]))
            if fails and fails[k % len(fails)] and k < 40:
                raise ERRORS[k % len(ERRORS)]('scripted failure')
            return np.array([float(p[0]) % 7, -(float(p[0]) % 5)]) if mo else float(p[0]) * 0.5
        if mo:
            class Q(MO):
                def evaluate(self, phenome, *a, **k):
                    return f(phenome)
            self.problem = Q(maximize=(True, True))
        else:
            self.problem = FunctionProblem(f, maximize)


def drive(c, ctx, runner, mo=False, check_pop=None):
    random.seed(c['seed'])
    np.random.seed(c['seed'] % 2 ** 32)
    w = World(c['fails'], c['mx'], mo)
    nxt = [0]

    def fresh():
        nxt[0] += 1
        return np.array([float((nxt[0] * 7919 + c['seed']) % 101)])
    made = []

    def init():
        g = fresh()
        made.append(g)
        return g
    cls = {'dist': DistributedIndividual, 'robust': RobustIndividual}[c['cls']]
    rep = Representation(initialize=init, decoder=IdentityDecoder(), individual_cls=cls)
    events, births = [], []
    batch = c['batch']
    cx = {'leap': {'distrib': {'non_viable': 0}}}

    def mutate(nx):
        for i in nx:
            i.genome = fresh()
            i.fitness = None
            yield i

    def tap(pop):
        births.append(len(pop))
        events.append(('offspring', list(pop), None))
        return pop

    def spy_parents(pop):
        events.append(('select', list(pop), None))
        return pop
    client = Client(c['sched'], copies=c['copies'])
    pipeline = [spy_parents, ops.random_selection, ops.clone, mutate, ops.pool(size=batch), tap]

    def eprobe(ind):
        events.append(('evaluated', ind, None))

    def pprobe(pop):
        events.append(('pop', list(pop), None))
    inserted = []

    def wrap_inserter(base):
        def ins(ind, pop, size):
            check(size == c['pop'], 'inserter was told population size %r, expected %d', size, c['pop'])
            inserted.append((ind, list(pop)))
            base(ind, pop, size)
        return ins
    with patched() as pt:
        final = runner(client, rep, w.problem, pipeline, eprobe if c['probes'] else None, pprobe if c['probes'] else None, cx, wrap_inserter)
    # ---- evaluation
    subs = len(client.submitted)
    offspring = sum(births)
    check(len(made) == c['init'], '%d individuals initialised, expected %d', len(made), c['init'])
    check(subs == c['init'] + offspring, '%d evaluations submitted for %d initial individuals and %d offspring', subs, c['init'], offspring)
    check(len(w.evals) == subs and all(f.ran for f in client.submitted), '%d of %d submitted evaluations ran', len(w.evals), subs)
    check(all(not it.pending for it in pt.iters), 'returned with evaluations outstanding')
    results = [f.value for f in client.order]
    check(all(f.error is None for f in client.order), 'evaluation task raised')
    check(len(set(map(id, results))) == subs, 'an individual was evaluated twice')
    bad = [not getattr(i, 'is_viable', True) for i in results]
    nbad = sum(bad)
    want_bad = [bool(c['fails'] and c['fails'][k % len(c['fails'])] and k < 40) for k in range(subs)]
    check(bad == want_bad, 'viability %r, failures were %r', bad, want_bad)
    for i, b in zip(results, bad):
        if b:
            check(isinstance(i.fitness, float) and math.isnan(i.fitness), 'failed individual has fitness %r', i.fitness)
        elif not mo:
            check(i.fitness == float(i.genome[0]) * 0.5, 'fitness %r does not belong to genome %r', i.fitness, i.genome)
    check(cx['leap']['distrib']['non_viable'] == nbad, '%r non-viable counted, %d failed', cx['leap']['distrib'], nbad)
    # ---- budget
    returned = 0 if c['count'] else nbad
    counted = offspring - returned
    if c['init']:
        check(c['births'] <= counted <= max(c['births'] + batch - 1, -returned), '%d offspring, %d non-viable%s, budget %d births in steps of %d', offspring, nbad, ' counted' if c['count'] else '', c['births'], batch)
        check(cx['leap']['births'] == counted, 'births counter %r, expected %d', cx['leap']['births'], counted)
    else:
        check(subs == 0 and final == [], 'no initial individuals but %d evaluations', subs)
    # ---- order of events per completion
    if inserted or not mo:
        check(len(inserted) == subs and all(a is b for (a, _), b in zip(inserted, results)), 'insertions %d do not match the %d completions', len(inserted), subs)
    if c['probes']:
        ev = [e[1] for e in events if e[0] == 'evaluated']
        check(same_list(ev, results), 'the evaluation probe saw %d individuals of %d', len(ev), subs)
        check(sum(1 for e in events if e[0] == 'pop') == subs, 'the population probe was called %d times for %d individuals', sum(1 for e in events if e[0] == 'pop'), subs)
        cur = None
        for e in events:
            if e[0] == 'pop':
                check(len(e[1]) <= c['pop'], 'population of %d exceeds %d', len(e[1]), c['pop'])
                cur = e[1]
            elif e[0] == 'select':
                check(cur is not None and same_list(e[1], cur), 'offspring were not created from the current population')
    check(len(final) == min(c['pop'], subs), '%d individuals returned of %d evaluated, size %d', len(final), subs, c['pop'])
    check(all(any(x is y for y in results) for x in final) and len(set(map(id, final))) == len(final), 'returned individuals are not the evaluated ones')
    # offspring never share identity with earlier individuals
    check(len(set(i.uuid for i in results)) == subs, 'two evaluated individuals share a uuid')
    if c['cls'] == 'dist':
        check(len(set(i.birth_id for i in results)) == subs, 'two evaluated individuals share a birth id')
    reordered = [client.submitted.index(f) for f in client.order] != list(range(subs))
    ctx.nt(reordered and nbad > 0 and offspring > 0)
    ctx.label('failures', nbad > 0)
    ctx.label('out of order', reordered)
    ctx.label('population overflowed', subs > c['pop'])
    return final, results, w


base = dict(sched=sched(), init=upto(0, 7, 20, 40), births=upto(0, 14, 40), pop=upto(1, 6, 20, 40), batch=upto(1, 3, 9, 20), mx=bools, count=bools, probes=bools,
            copies=bools, cls=st.sampled_from(['dist', 'dist', 'robust']), fails=st.lists(st.sampled_from([False, False, True]), max_size=9))


@M.sub(case(**base), n=700, shards=8, mult=15, rule='completions out of submission order, failures, and offspring')
def greedy(c, ctx):
    def run(client, rep, problem, pipe, ep, pp, cx, wrap):
        return steady_state(client, c['births'], c['init'], c['pop'], rep, problem, pipe, inserter=wrap(greedy_insert_into_pop), count_nonviable=c['count'], evaluated_probe=ep, pop_probe=pp, context=cx)
    final, results, w = drive(c, ctx, run)
    # greedy insertion keeps the best viable individuals ever evaluated
    good = sorted((score(i.fitness, c['mx']) for i in results if i.is_viable), reverse=True)
    kept = sorted((score(i.fitness, c['mx']) for i in final if i.is_viable), reverse=True)
    check(kept == good[:c['pop']], 'viable survivors %r, the best evaluated are %r', kept, good[:c['pop']])


@M.sub(case(**base), n=400, shards=6, mult=15, rule='completions out of submission order, failures, and offspring')
def tournament(c, ctx):
    def run(client, rep, problem, pipe, ep, pp, cx, wrap):
        return steady_state(client, c['births'], c['init'], c['pop'], rep, problem, pipe, inserter=wrap(tournament_insert_into_pop), count_nonviable=c['count'], evaluated_probe=ep, pop_probe=pp, context=cx)
    drive(c, ctx, run)


@M.sub(case(**base), n=150, shards=3, mult=15, rule='completions out of submission order, failures, and offspring')
def default_inserter(c, ctx):
    """Without an inserter argument the greedy policy is used."""
    def run(client, rep, problem, pipe, ep, pp, cx, wrap):
        return steady_state(client, c['births'], c['init'], c['pop'], rep, problem, pipe, count_nonviable=c['count'], evaluated_probe=ep, pop_probe=pp, context=cx)
    final, results = drive_plain(c, ctx, run)
    good = sorted((score(i.fitness, c['mx']) for i in results if i.is_viable), reverse=True)
    kept = sorted((score(i.fitness, c['mx']) for i in final if i.is_viable), reverse=True)
    check(kept == good[:c['pop']], 'viable survivors %r, the best evaluated are %r', kept, good[:c['pop']])


def drive_plain(c, ctx, run):
    w = World(c['fails'], c['mx'])
    n = [0]

    def fresh():
        n[0] += 1
        return np.array([float((n[0] * 7919 + c['seed']) % 101)])

    def mutate(nx):
        for i in nx:
            i.genome = fresh()
            yield i
    rep = Representation(initialize=fresh, decoder=IdentityDecoder(), individual_cls=DistributedIndividual)
    client = Client(c['sched'], copies=c['copies'])
    with patched():
        final = run(client, rep, w.problem, [ops.random_selection, ops.clone, mutate, ops.pool(size=c['batch'])], None, None, {'leap': {'distrib': {'non_viable': 0}}}, None)
    results = [f.value for f in client.order]
    check(len(final) == min(c['pop'], len(results)), 'population size')
    ctx.nt(len(results) > c['init'] and any(not i.is_viable for i in results))
    return final, results


@M.sub(case(**base), n=300, shards=6, mult=10, rule='completions out of submission order and offspring', )
def nsga2(c, ctx):
    """Steady-state NSGA-II without failures."""
    c = dict(c, fails=[])

    def run(client, rep, problem, pipe, ep, pp, cx, wrap):
        return steady_state_nsga_2(client, c['births'], c['init'], c['pop'], problem, rep, pipe, count_nonviable=c['count'], evaluated_probe=ep, pop_probe=pp, context=cx)
    final, results, w = drive(c, ctx, run, mo=True)
    if final:
        vecs = [list(i.fitness) for i in final]
        check([int(i.rank) for i in final] == peel(vecs, (True, True)), 'ranks of the final population')
    ctx.nt(len(results) > c['init'])


@M.sub(case(**dict(base, births=st.integers(1, 4), init=st.integers(2, 4), fails=st.just([False, True, False]))), n=20, shards=1, mult=2, rule='always')
def nsga2_nonviable(c, ctx):
    """A failed evaluation must not end a steady-state NSGA-II run (known finding)."""
    def run(client, rep, problem, pipe, ep, pp, cx, wrap):
        return steady_state_nsga_2(client, c['births'], c['init'], c['pop'], problem, rep, pipe, count_nonviable=c['count'], evaluated_probe=ep, pop_probe=pp, context=cx)
    ctx.nt(True)
    try:
        final, results, w = drive(c, ctx, run, mo=True)
    except TypeError as e:
        raise Violation(MO_FINDING + ': %s' % e)
