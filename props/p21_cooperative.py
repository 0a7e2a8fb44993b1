from common import *
import csv as _csv
import io
import itertools
from leap_ec import ops
from leap_ec.decoder import Decoder
from leap_ec.problem import CooperativeProblem

M = Module('P21')


class Doubler(Decoder):
    def decode(self, genome, *a, **k):
        return np.asarray(genome) * 2


def value(p, div):
    v = sum((i + 1) * x for i, x in enumerate(p))
    return math.inf if div == 3 and v % 3 == 0 else v / div


class Recorder(FunctionProblem):
    def __init__(self, maximize=True, div=8):
        self.calls = []
        self.div = div

        def f(p):
            p = np.asarray(p).tolist()
            self.calls.append(p)
            return value(p, div)
        super().__init__(f, maximize)


fields = dict(nsub=upto(1, 4, 9, 20), sizes=st.lists(st.integers(1, 4), min_size=4, max_size=4).map(lambda l: l * 5),
              lens=st.lists(st.integers(1, 3), min_size=4, max_size=4).map(lambda l: l * 5), trials=upto(1, 4, 12, 25), cur=st.integers(0, 19),
              count=upto(1, 4, 9), dup=st.integers(1, 9), div=st.sampled_from([8, 7, 8, 7, 3]), sel=st.sampled_from(['random', 'tournament', 'cyclic', 'best', 'cycle']),
              log=bools, gen=st.integers(0, 9), dec=bools)


def selector(name, drawn):
    def f(pop):
        inner = {'random': ops.random_selection, 'tournament': ops.tournament_selection, 'cyclic': ops.naive_cyclic_selection,
                 'cycle': ops.cyclic_selection, 'best': lambda p: itertools.repeat(max(p))}[name](pop)
        for x in inner:
            drawn.append(x)
            yield x
    return f


def setup(c, problem, decoder):
    subs = []
    for k in range(c['nsub']):
        pop = []
        for j in range(c['sizes'][k]):
            i = Individual(np.array([100 * k + 10 * j + t for t in range(c['lens'][k])]), decoder=decoder, problem=problem)
            i.fitness = float(10 * k + j)
            pop.append(i)
        subs.append(pop)
    cx = {'leap': {'subpopulations': subs, 'current_subpopulation': c['cur'] % c['nsub'], 'generation': c['gen']}}
    return subs, cx


def newcomers(c, cur, problem, decoder):
    out = []
    for j in range(c['count']):
        i = Individual(np.array([1000 + 10 * (j % c['dup']) + t for t in range(c['lens'][cur])]), decoder=decoder, problem=problem)
        out.append(i)
    return out


def verify(c, ctx, subs, cur, inds, calls, drawn, results, factor):
    """calls: complete phenomes evaluated, trials per individual, in order."""
    T = c['trials']
    check(len(calls) == T * len(inds), '%d complete solutions evaluated for %d individuals x %d trials', len(calls), len(inds), T)
    by = {k: iter([d for d in drawn if any(d is x for x in subs[k])]) for k in range(c['nsub'])}
    for q, ind in enumerate(inds):
        vals = []
        for t in range(T):
            p = calls[q * T + t]
            off = 0
            for k in range(c['nsub']):
                part = [x // factor for x in p[off:off + c['lens'][k]]]
                off += c['lens'][k]
                if k == cur:
                    check(part == ind.genome.tolist(), 'position %d of the complete solution is %r, not the evaluated individual', k, part)
                else:
                    check(any(part == s.genome.tolist() for s in subs[k]), 'position %d holds %r, not a member of subpopulation %d', k, part, k)
                    d = next(by[k], None)
                    check(d is not None and part == d.genome.tolist(), 'collaborator is not the one selected')
            check(off == len(p), 'complete solution of length %d, expected %d', len(p), off)
            vals.append(value(p, c['div']))
        check(close(results[q], sum(vals) / T), 'fitness %r, mean over trials %r', results[q], sum(vals) / T)
    return


def verify_log(c, text, subs, cur, inds, calls, results, operator, factor):
    rows = list(_csv.DictReader(io.StringIO(text)))
    per = c['nsub'] + 1
    check(len(rows) == per * c['trials'] * len(inds), '%d log rows, expected %d', len(rows), per * c['trials'] * len(inds))
    for q in range(len(inds)):
        tot = []
        for t in range(c['trials']):
            b = rows[(q * c['trials'] + t) * per:(q * c['trials'] + t + 1) * per]
            p = [x // factor for x in calls[q * c['trials'] + t]]
            off = 0
            for k, r in enumerate(b[:-1]):
                check(r['individual_type'] == 'Collaborator' and r['collaborator_subpopulation'] == str(k), 'log row %r', r)
                check(r['genome'] == str(np.array(p[off:off + c['lens'][k]])), 'logged genome %r', r['genome'])
                off += c['lens'][k]
            r = b[-1]
            check(r['individual_type'] == 'Combined Individual' and r['genome'] == str(np.array(p)), 'log row %r', r)
            tot.append(float(r['fitness']))
            for r in b:
                check(r['generation'] == str(c['gen']) and r['subpopulation'] == str(cur), 'log row %r', r)
        check(close(sum(tot) / len(tot), results[q]), 'logged fitnesses average to %r, assigned %r', sum(tot) / len(tot), results[q])


@M.sub(case(**fields), n=600, shards=2, rule='at least two subpopulations and two trials')
def operator(c, ctx):
    problem = Recorder(True, c['div'])
    decoder = Doubler() if c['dec'] else IdentityDecoder()
    subs, cx = setup(c, problem, decoder)
    cur = cx['leap']['current_subpopulation']
    inds = newcomers(c, cur, problem, decoder)
    before = [[snap(i) for i in s] for s in subs]
    drawn = []
    stream = io.StringIO() if c['log'] else None
    op = ops.CooperativeEvaluate(num_trials=c['trials'], collaborator_selector=selector(c['sel'], drawn), log_stream=stream, context=cx)
    out = list(itertools.islice(op(iter(inds)), len(inds)))
    check(same_list(out, inds), 'individuals came out in another order')
    verify(c, ctx, subs, cur, inds, problem.calls, drawn, [i.fitness for i in out], 2 if c['dec'] else 1)
    check([[snap(i) for i in s] for s in subs] == before, 'collaborators were modified')
    for j, i in enumerate(inds):
        check(i.genome.tolist() == [1000 + 10 * (j % c['dup']) + t for t in range(c['lens'][cur])], 'individual genome changed')
    if c['log']:
        verify_log(c, stream.getvalue(), subs, cur, inds, problem.calls, [i.fitness for i in out], True, 2 if c['dec'] else 1)
    ctx.nt(c['nsub'] > 1 and c['trials'] > 1)
    ctx.label('log', c['log'])


@M.sub(case(route=st.sampled_from(['direct', 'multiple', 'grouped', 'chunked']), maximize=bools, own=bools, **fields), n=600, shards=2,
       rule='at least two subpopulations and two trials')
def problem_wrapper(c, ctx):
    wrapped = Recorder(c['maximize'], c['div'])
    decoder = Doubler() if c['dec'] else IdentityDecoder()
    drawn = []
    cx = {'leap': {}}
    stream = io.StringIO() if c['log'] else None
    prob = CooperativeProblem(wrapped, c['trials'], selector(c['sel'], drawn), combined_decoder=decoder, log_stream=stream, context=cx)
    # collaborators are members of other subpopulations on the same problem
    own = Doubler() if c['own'] else IdentityDecoder()      # an individual's own decoder plays no part
    subs, cx2 = setup(c, prob, own)
    cx['leap'] = cx2['leap']
    cur = cx['leap']['current_subpopulation']
    inds = newcomers(c, cur, prob, own)
    before = [[snap(i) for i in s] for s in subs]
    if c['route'] == 'direct':
        for i in inds:
            i.fitness = prob.evaluate(i.decode(), individual=i)
    elif c['route'] == 'multiple':
        for i, f in zip(inds, prob.evaluate_multiple([i.decode() for i in inds], individuals=inds)):
            i.fitness = f
    elif c['route'] == 'grouped':
        check(same_list(ops.grouped_evaluate(inds), inds), 'order changed')
    else:
        ops.grouped_evaluate(inds, max_individuals_per_chunk=2)
    fit = [i.fitness for i in inds]
    verify(c, ctx, subs, cur, inds, wrapped.calls, drawn, fit, 2 if c['dec'] else 1)
    check([[snap(i) for i in s] for s in subs] == before, 'collaborators were modified')
    for a in inds:
        for b in inds:
            w = (a.fitness > b.fitness) if c['maximize'] else (a.fitness < b.fitness)
            if not close(a.fitness, b.fitness):
                check((a > b) == w, 'comparison ignores the wrapped direction')
    if c['log']:
        verify_log(c, stream.getvalue(), subs, cur, inds, wrapped.calls, fit, False, 2 if c['dec'] else 1)
    ctx.nt(c['nsub'] > 1 and c['trials'] > 1)
    ctx.label(c['route'])


@M.sub(case(wrap=bools, steps=st.lists(st.tuples(st.integers(0, 3), st.integers(0, 3), st.integers(1, 3), bools), min_size=2, max_size=7),
            nsub=st.integers(2, 4), trials=st.integers(1, 3), sel=st.sampled_from(['random', 'tournament', 'cyclic', 'best', 'cycle'])),
       n=400, rule='some subpopulation was replaced between two evaluations')
def moving_subpopulations(c, ctx):
    """Subpopulations are replaced while the run goes on; collaborators come from the current ones."""
    wrapped = Recorder()
    drawn = []
    serial = itertools.count(1)

    def fresh(problem, n):
        out = []
        for _ in range(n):
            out.append(Individual(np.array([next(serial)]), decoder=IdentityDecoder(), problem=problem))
            out[-1].fitness = float(out[-1].genome[0] % 5)
        return out
    cx = {'leap': {'generation': 0}}
    if c['wrap']:
        target = CooperativeProblem(wrapped, c['trials'], selector(c['sel'], drawn), context=cx)
    else:
        target = wrapped
        op = ops.CooperativeEvaluate(num_trials=c['trials'], collaborator_selector=selector(c['sel'], drawn), context=cx)
    subs = [fresh(target, 2) for _ in range(c['nsub'])]
    cx['leap']['subpopulations'] = subs
    replaced = False
    for g, (cur, rep, size, whole) in enumerate(c['steps']):
        cur, rep = cur % c['nsub'], rep % c['nsub']
        cx['leap'].update(current_subpopulation=cur, generation=g)
        ind = Individual(np.array([1000 + g]), decoder=IdentityDecoder(), problem=target)
        wrapped.calls.clear()
        if c['wrap']:
            got = target.evaluate(ind.decode(), individual=ind)
        else:
            got = next(op(iter([ind]))).fitness
        check(len(wrapped.calls) == c['trials'], '%d complete solutions for %d trials', len(wrapped.calls), c['trials'])
        vals = []
        for p in wrapped.calls:
            check(len(p) == c['nsub'], 'complete solution %r', p)
            for k in range(c['nsub']):
                ok = [1000 + g] if k == cur else [int(i.genome[0]) for i in cx['leap']['subpopulations'][k]]
                check(p[k] in ok, 'step %d: position %d of the complete solution is %r, current members %r', g, k, p[k], ok)
            vals.append(sum((i + 1) * x for i, x in enumerate(p)) / 8)
        check(close(got, sum(vals) / len(vals)), 'fitness %r, mean %r', got, vals)
        new = fresh(target, size)
        if whole:
            subs = cx['leap']['subpopulations'] = [new if k == rep else s for k, s in enumerate(subs)]
        else:
            subs[rep] = new
        replaced |= g + 1 < len(c['steps'])
    ctx.nt(replaced)
    ctx.label('wrapper', c['wrap'])
