from common import *
import csv
import io
import os
import platform
import logging
from fakedask import Client, patched
from leap_ec.distrib import probe as dprobe
from leap_ec.distrib import synchronous
from leap_ec.distrib.evaluate import evaluate, is_viable
from leap_ec.distrib.individual import DistributedIndividual
from leap_ec.individual import RobustIndividual
from leap_ec import ops

M = Module('P36')
M.assumptions = ['A stand-in for the dask client (map, submit, gather) lets the test choose the evaluation order.']
logging.disable(logging.CRITICAL)


ERRORS = [ValueError, StopIteration, ZeroDivisionError, KeyError, AssertionError, RuntimeError, TypeError]


def world(fails, mx):
    """Fitness depends on the genome; genomes whose index is scripted raise."""
    seen = []

    def f(p):
        seen.append(int(p[0]))
        if fails and fails[int(p[0]) % len(fails)]:
            raise ERRORS[int(p[0]) % len(ERRORS)]('scripted failure %d' % int(p[0]))
        return float(p[0]) * 3 + float(p[1])
    return FunctionProblem(f, mx), seen


def make(n, problem, cls):
    return [cls(np.array([k, 7 * k % 5], dtype=float), decoder=IdentityDecoder(), problem=problem) for k in range(n)]


def check_result(inp, out, fails, cx, evals):
    n = len(inp)
    check(len(out) == n, '%d individuals returned for %d', len(out), n)
    bad = 0
    for k, (a, b) in enumerate(zip(inp, out)):
        check(b.genome.tolist() == [k, 7 * k % 5], 'result %d has genome %r', k, b.genome.tolist())
        check(b.uuid == a.uuid, 'result %d is another individual', k)
        if fails and fails[k % len(fails)]:
            bad += 1
            check(not is_viable(b) and math.isnan(b.fitness), 'failed individual %d: viable %r fitness %r', k, is_viable(b), b.fitness)
            check(type(b.exception) is ERRORS[k % len(ERRORS)] and str(k) in str(b.exception), 'exception recorded: %r', b.exception)
        else:
            check(is_viable(b) and b.fitness == k * 3 + 7 * k % 5, 'individual %d has fitness %r', k, b.fitness)
        check(b.hostname == platform.node() and b.pid == os.getpid(), 'location %r %r', b.hostname, b.pid)
        check(b.start_eval_time <= b.stop_eval_time, 'evaluation times %r > %r', b.start_eval_time, b.stop_eval_time)
    check(sorted(evals) == list(range(n)), 'evaluated genomes %r', sorted(evals))
    check(cx['leap']['distrib']['non_viable'] == bad, 'non-viable count %r, expected %d', cx['leap'], bad)
    return bad


@M.sub(case(n=upto(1, 12, 30, 80), fails=st.lists(st.sampled_from([False, False, True]), max_size=8), sched=st.lists(st.integers(0, 20), min_size=1, max_size=20), mx=bools, copies=bools,
            route=st.sampled_from(['pop', 'curried', 'pool', 'pool_extra']), cls=st.sampled_from(['dist', 'robust'])), n=900, shards=4, rule='evaluated out of order with at least one failure and one success')
def synchronous_eval(c, ctx):
    problem, seen = world(c['fails'], c['mx'])
    cls = DistributedIndividual if c['cls'] == 'dist' else RobustIndividual
    pop = make(c['n'], problem, cls)
    cx = {'leap': {'distrib': {'non_viable': 0}}}
    client = Client(c['sched'], copies=c['copies'])
    with patched():
        if c['route'] == 'pop':
            out = synchronous.eval_population(list(pop), client=client, context=cx)
        elif c['route'] == 'curried':
            out = synchronous.eval_population(client=client, context=cx)(list(pop))
        else:
            src = iter(pop + make(3, problem, cls)) if c['route'] == 'pool_extra' else iter(pop)
            out = synchronous.eval_pool(client=client, size=c['n'], context=cx)(src)
            if c['route'] == 'pool_extra':
                check(len(list(src)) == 3, 'the pool drew more individuals than its size')
    bad = check_result(pop, out, c['fails'], cx, list(seen))
    if c['n'] and not c['copies']:
        check(same_list(list(out), pop), 'other objects returned')
    # the same as serial evaluation
    p2, _ = world(c['fails'], c['mx'])
    serial = make(c['n'], p2, RobustIndividual)
    for i in serial:
        i.evaluate()
    check(all(close(a.fitness, b.fitness) for a, b in zip(out, serial)), 'differs from serial evaluation')
    order = [client.submitted.index(f) for f in client.order]
    ctx.nt(order != sorted(order) and 0 < bad < c['n'])
    ctx.label('failures', bad > 0)
    # a second round adds to the count instead of replacing it
    before = cx['leap']['distrib']['non_viable']
    with patched():
        synchronous.eval_population(make(c['n'], problem, cls), client=Client([0]), context=cx)
    check(cx['leap']['distrib']['non_viable'] == before + bad, 'non-viable count after a second round')


@M.sub(case(f=st.one_of(eighths, infs, nan), fail=bools, cls=st.sampled_from(['dist', 'robust', 'plain']), mx=bools), n=300, rule='a failing evaluation')
def single(c, ctx):
    """The function run on the workers."""
    def f(p):
        if c['fail'] and c['cls'] != 'plain':
            raise KeyError('boom')
        return c['f']
    cls = {'dist': DistributedIndividual, 'robust': RobustIndividual, 'plain': Individual}[c['cls']]
    ind = cls(np.array([1.0]), decoder=IdentityDecoder(), problem=FunctionProblem(f, c['mx']))
    cx = {'leap': {'distrib': {'non_viable': 5}}}
    with patched():
        r = evaluate(context=cx)(ind)
    check(r is ind, 'another individual returned')
    fail = c['fail'] and c['cls'] != 'plain'
    check(cx['leap']['distrib']['non_viable'] == 5 + fail, 'non-viable count %r', cx)
    check(bool(is_viable(ind)) == (not fail), 'viability')
    check(close(ind.fitness, math.nan if fail else c['f']), 'fitness %r', ind.fitness)
    ctx.nt(fail)


def fmtrow(i):
    return {'uuid': str(i.uuid), 'birth_id': str(i.birth_id), 'start_eval_time': str(i.start_eval_time), 'stop_eval_time': str(i.stop_eval_time), 'fitness': str(i.fitness)}


@M.sub(case(n=upto(0, 8, 60), fails=st.lists(st.sampled_from([False, False, True]), max_size=5), header=bools, order=seeds), n=300, shards=2, rule='at least two individuals')
def location_log(c, ctx):
    problem, _ = world(c['fails'], True)
    pop = make(c['n'], problem, DistributedIndividual)
    cx = {'leap': {'distrib': {'non_viable': 0}}}
    stream = io.StringIO()
    log = dprobe.log_worker_location(stream, header=c['header'])
    order = np.random.RandomState(c['order'] % 2 ** 32).permutation(c['n']).tolist()
    with patched():
        for k in order:
            evaluate(pop[k], context=cx)
            log(pop[k])
    text = stream.getvalue()
    fields = ['hostname', 'pid', 'uuid', 'birth_id', 'start_eval_time', 'stop_eval_time', 'fitness']
    rows = list(csv.DictReader(io.StringIO(text))) if c['header'] else list(csv.DictReader(io.StringIO(text), fieldnames=fields))
    check(len(rows) == c['n'], '%d rows for %d individuals', len(rows), c['n'])
    for r, k in zip(rows, order):
        want = dict(fmtrow(pop[k]), hostname=platform.node(), pid=str(os.getpid()))
        check(dict(r) == want, 'row %r, expected %r', dict(r), want)
    if c['header']:
        check(text.split('\n')[0].strip().split(',') == fields, 'header %r', text.split('\n')[0])
    ctx.nt(c['n'] > 1)


@M.sub(case(interval=st.integers(1, 5), sizes=st.one_of(st.lists(st.integers(0, 5), min_size=1, max_size=14), st.lists(st.integers(0, 5), min_size=1, max_size=14), st.lists(st.sampled_from([2, 60, 110]), min_size=1, max_size=4), st.lists(st.integers(0, 2), min_size=30, max_size=40)), header=bools, twice=bools), n=300, shards=2, rule='at least two snapshots written')
def population_log(c, ctx):
    problem, _ = world([], True)
    stream = io.StringIO()
    log = dprobe.log_pop(c['interval'], stream, header=c['header'])
    want = []
    cx = {'leap': {'distrib': {'non_viable': 0}}}
    for k, n in enumerate(c['sizes']):
        pop = make(n, problem, DistributedIndividual)
        with patched():
            for i in pop:
                evaluate(i, context=cx)
        if c['twice'] and n > 1:
            pop[1] = pop[0]
        keep = list(pop)
        log(pop)
        check(same_list(pop, keep), 'the population was modified')
        if k % c['interval'] == 0:
            want += [dict(fmtrow(i), interval=str(k)) for i in pop]
    fields = ['interval', 'uuid', 'birth_id', 'start_eval_time', 'stop_eval_time', 'fitness']
    text = stream.getvalue()
    rows = list(csv.DictReader(io.StringIO(text))) if c['header'] else list(csv.DictReader(io.StringIO(text), fieldnames=fields))
    check([dict(r) for r in rows] == want, 'rows %r, expected %r', [dict(r) for r in rows][:3], want[:3])
    ctx.nt(len(c['sizes']) > c['interval'] and sum(c['sizes']) > 0)


@M.sub(case(idx=st.lists(st.integers(0, 4), min_size=2, max_size=10), sched=st.lists(st.integers(0, 20), min_size=1, max_size=20), route=st.sampled_from(['sync', 'pool', 'async'])), n=300, rule='some individual appears twice')
def repeated_individuals(c, ctx):
    """An individual that appears twice is evaluated twice (evaluation may be noisy)."""
    from leap_ec.distrib import asynchronous
    n = [0]

    def f(p):
        n[0] += 1
        return float(n[0])
    base = make(5, FunctionProblem(f, True), DistributedIndividual)
    pop = [base[i] for i in c['idx']]
    cx = {'leap': {'distrib': {'non_viable': 0}}}
    client = Client(c['sched'], copies=True)
    with patched():
        if c['route'] == 'sync':
            out = synchronous.eval_population(list(pop), client=client, context=cx)
        elif c['route'] == 'pool':
            out = synchronous.eval_pool(client=client, size=len(pop), context=cx)(iter(pop))
        else:
            out = [f.result() for f in asynchronous.eval_population(list(pop), client=client, context=cx)]
    check(len(out) == len(pop), '%d results for %d individuals', len(out), len(pop))
    check(sorted(i.fitness for i in out) == [float(k + 1) for k in range(len(pop))], 'fitnesses %r of %d noisy evaluations', [i.fitness for i in out], len(pop))
    check(sorted(i.uuid for i in out) == sorted(i.uuid for i in pop), 'other individuals returned')
    if c['route'] != 'async':
        check([i.uuid for i in out] == [i.uuid for i in pop], 'order')
    ctx.nt(len(set(c['idx'])) < len(c['idx']))


class Log:
    def __init__(self):
        self.lines = []

    def debug(self, m, *a):
        self.lines.append(('debug', m % a if a else str(m)))

    def warning(self, m, *a):
        self.lines.append(('warning', m % a if a else str(m)))
    info = error = debug


@M.sub(case(fail=bools, cls=st.sampled_from(['dist', 'robust', 'plain']), v=eighths), n=150, rule='a failing evaluation')
def worker_log(c, ctx):
    """A worker with a logger gets the evaluation, and a failure as a warning naming the exception."""
    def f(p):
        if c['fail']:
            raise KeyError('scripted-boom')
        return c['v']
    fail = c['fail'] and c['cls'] != 'plain'
    if c['cls'] == 'plain':
        c = dict(c, fail=False)
    cls = {'dist': DistributedIndividual, 'robust': RobustIndividual, 'plain': Individual}[c['cls']]
    ind = cls(np.array([1.0]), decoder=IdentityDecoder(), problem=FunctionProblem(f, True))
    cx = {'leap': {'distrib': {'non_viable': 0}}}
    log = Log()
    with patched(log):
        r = evaluate(context=cx)(ind)
    check(r is ind and close(ind.fitness, math.nan if fail else c['v']), 'fitness %r', ind.fitness)
    warn = [m for k, m in log.lines if k == 'warning']
    check(len(warn) == int(fail), 'warnings %r, failed %r', warn, fail)
    if fail:
        check('scripted-boom' in warn[0], 'warning does not name the failure: %r', warn[0])
    check(all('fake-worker' in m for _, m in log.lines) and len(log.lines) >= 2, 'log lines %r', log.lines)
    ctx.nt(fail)


@M.sub(case(interval=st.sampled_from([1, 2, 3, 7]), calls=st.sampled_from([400, 1100, 2100, 2500]), size=st.integers(1, 2)), n=12, rule='always')
def long_population_log(c, ctx):
    """The interval column counts every call, also in a long run."""
    stream = io.StringIO()
    log = dprobe.log_pop(c['interval'], stream, header=True)
    problem, _ = world([], True)
    pop = make(c['size'], problem, DistributedIndividual)
    with patched():
        for i in pop:
            evaluate(i, context={'leap': {'distrib': {'non_viable': 0}}})
    for _ in range(c['calls']):
        log(pop)
    got = [int(r['interval']) for r in csv.DictReader(io.StringIO(stream.getvalue()))]
    want = [k for k in range(0, c['calls'], c['interval']) for _ in pop]
    check(got == want, 'intervals of %d calls: %d rows, expected %d', c['calls'], len(got), len(want))
    ctx.nt()


@M.sub(case(n=upto(1, 8, 24), shift=st.lists(st.integers(-3, 3), min_size=1, max_size=8), fails=st.lists(bools, min_size=2, max_size=4), sched=st.lists(st.integers(0, 20), min_size=1, max_size=20),
            route=st.sampled_from(['sync', 'pool', 'async']), copies=bools, cls=st.sampled_from(['dist', 'robust'])), n=400, rule='some genome changed since the first evaluation')
def evaluated_again(c, ctx):
    """Individuals evaluated before get the fitness of the genome they have now."""
    from leap_ec.distrib import asynchronous
    rounds = [0]

    def f(p):
        if c['fails'][(int(p[0]) + rounds[0]) % len(c['fails'])]:
            raise RuntimeError('scripted')
        return float(p[0]) * 2 + 100 * rounds[0]
    cls = DistributedIndividual if c['cls'] == 'dist' else RobustIndividual
    cur = make(c['n'], FunctionProblem(f, True), cls)
    ids = [i.uuid for i in cur]
    cx = {'leap': {'distrib': {'non_viable': 0}}}
    bad = 0
    for r in range(3):
        rounds[0] = r
        client = Client(c['sched'], copies=c['copies'])
        genes = [float(i.genome[0]) for i in cur]
        with patched():
            if c['route'] == 'sync':
                out = synchronous.eval_population(list(cur), client=client, context=cx)
            elif c['route'] == 'pool':
                out = synchronous.eval_pool(client=client, size=c['n'], context=cx)(iter(cur))
            else:
                out = [x.result() for x in asynchronous.eval_population(list(cur), client=client, context=cx)]
                out.sort(key=lambda i: ids.index(i.uuid))
        check([i.uuid for i in out] == ids, 'round %d returned other individuals', r)
        for g, i in zip(genes, out):
            fail = c['fails'][(int(g) + r) % len(c['fails'])]
            bad += fail
            check(float(i.genome[0]) == g, 'genome changed')
            check(bool(is_viable(i)) == (not fail) and close(i.fitness, math.nan if fail else g * 2 + 100 * r),
                  'round %d, gene %r: fitness %r, viable %r, failed %r', r, g, i.fitness, is_viable(i), fail)
            check(not fail or isinstance(i.exception, RuntimeError), 'no exception recorded')
        check(cx['leap']['distrib']['non_viable'] == bad, 'non-viable count %r, expected %d', cx, bad)
        cur = list(out)
        for k, i in enumerate(cur):
            i.genome = i.genome + c['shift'][k % len(c['shift'])]
    ctx.nt(any(c['shift'][:c['n']]))


@M.sub(case(n=upto(1, 8, 24), bad=st.integers(0, 30), route=st.sampled_from(['sync', 'pool']), sched=st.lists(st.integers(0, 20), min_size=1, max_size=20)), n=200, rule='more than one individual')
def fragile_individuals(c, ctx):
    """Individuals that do not catch their own failures: the error reaches the caller, nothing is dropped in silence."""
    k = c['bad'] % c['n']

    def f(p):
        if int(p[0]) == k:
            raise KeyError('scripted')
        return 1.0
    pop = make(c['n'], FunctionProblem(f, True), Individual)
    cx = {'leap': {'distrib': {'non_viable': 0}}}
    client = Client(c['sched'])
    out = None
    with patched():
        try:
            out = synchronous.eval_population(pop, client=client, context=cx) if c['route'] == 'sync' else \
                synchronous.eval_pool(client=client, size=c['n'], context=cx)(iter(pop))
        except KeyError:
            pass
    check(out is None, 'a failed evaluation gave %d of %d individuals and no error', len(out or []), c['n'])
    ctx.nt(c['n'] > 1)
