from common import *
import io
import csv as _csv
import itertools
from leap_ec import ops, Representation
from leap_ec.algorithm import random_search, stop_at_generation
from leap_ec.simple import ea_solve
from fakedask import Client, patched
from matplotlib import pyplot as plt

M = Module('P18')


@M.sub(case(n=upto(1, 25, 60, 130), maximize=bools, table=st.lists(eighths, min_size=2, max_size=9), depth=st.integers(1, 3)),
       n=400, rule='a budget of at least three evaluations')
def walk(c, ctx):
    tag = itertools.count()
    calls = []

    def f(p):
        calls.append(int(p[0]))
        return c['table'][int(p[0]) % len(c['table'])]
    cx = {'leap': {}}
    ins, gens = [], []

    def enter(pop):
        check(isinstance(pop, list) and len(pop) == 1, 'pipeline got %r', pop)
        ins.append(pop[0])
        gens.append(cx['leap'].get('generation'))
        return pop

    def renew(s):
        for i in s:
            i.genome = np.array([next(tag)])
            i.fitness = None
            yield i
    problem = FunctionProblem(f, c['maximize'])
    pipeline = [enter, ops.cyclic_selection, ops.clone] + [renew] * c['depth'] + [ops.evaluate, ops.pool(size=1)]
    out = random_search(c['n'], problem, Representation(initialize=lambda: np.array([next(tag)])), pipeline, context=cx)
    check(isinstance(out, list) and len(out) == c['n'], 'walk of %d for a budget of %d', len(out), c['n'])
    check(len(calls) == c['n'], '%d evaluations for a budget of %d', len(calls), c['n'])
    check(calls == [int(i.genome[0]) for i in out], 'walk is not in evaluation order')
    for i in out:
        check(i.fitness == c['table'][int(i.genome[0]) % len(c['table'])], 'unevaluated or wrong fitness %r', i.fitness)
        check(i.problem is problem, 'wrong problem')
    check(same_list(ins, out[:-1]), 'steps do not start from the previous individual')
    for a, b in zip(out, out[1:]):
        check(b.parents == {a.uuid}, 'step is not a descendant of the previous one')
    check(gens == list(range(1, c['n'])), 'progress in the context: %r', gens)
    check(cx['leap']['generation'] == c['n'], 'final count %r', cx['leap']['generation'])
    ctx.nt(c['n'] >= 3)


@M.sub(case(limit=st.integers(0, 60), gens=st.lists(st.integers(0, 80), min_size=1, max_size=20), pop=st.integers(0, 3)), n=300,
       rule='generations on both sides of the limit')
def stop_criterion(c, ctx):
    cx = {'leap': {'generation': 0}}
    stop = stop_at_generation(c['limit'], context=cx)
    other = stop_at_generation(c['limit'] + 5, context=cx)
    for g in c['gens']:
        cx['leap']['generation'] = g
        check(bool(stop([None] * c['pop'])) == (g >= c['limit']), 'generation %d limit %d', g, c['limit'])
        check(bool(other(population=[])) == (g >= c['limit'] + 5), 'second criterion wrong')
    ctx.nt(min(c['gens']) < c['limit'] <= max(c['gens']))
    ctx.label('negative rejected', raises(AssertionError, lambda: stop_at_generation(-1 - c['limit'], context=cx)))


bnd = st.tuples(eighths, st.integers(1, 400).map(lambda i: i / 8)).map(lambda t: [t[0], t[0] + t[1]])


@M.sub(case(bounds=st.lists(bnd, min_size=1, max_size=4), gens=upto(0, 12, 40), pop=upto(1, 9, 40), maximize=bools,
            std=st.sampled_from([0.1, 1.0, 50.0]), fn=st.sampled_from(['sum', 'sphere', 'first', 'const', 'init', 'fail', 'nan', 'int', 'npfloat']), w=st.lists(st.sampled_from([-2.0, -1.0, 1.0, 3.0]), min_size=4, max_size=4),
            client=st.sampled_from([False, False, True]), copies=bools, sched=st.lists(st.integers(0, 9), min_size=1, max_size=8), viz=st.sampled_from([False] * 9 + [True])),
       n=220, shards=4, rule='at least two generations of at least two individuals')
def solver(c, ctx):
    bounds = [tuple(b) for b in c['bounds']]
    calls = []

    def f(p):
        p = np.asarray(p, dtype=float)
        if c['fn'] == 'sum':
            v = float(np.sum(p * np.array(c['w'][:len(p)])))
        elif c['fn'] == 'sphere':
            v = float(np.sum(p ** 2))
        elif c['fn'] == 'first':
            v = float(p[0])
        elif c['fn'] == 'init':     # nothing beats the first evaluated points
            v = 1000.0 - len(calls) if c['maximize'] else float(len(calls))
        elif c['fn'] in ('fail', 'nan'):     # some points cannot be evaluated
            v = float(np.sum(p))
            if (abs(float(p[0])) * 8000) % 1 < 0.4:
                v = math.nan
        elif c['fn'] == 'int':
            v = int(np.floor(np.sum(p)))
        elif c['fn'] == 'npfloat':
            v = np.float64(np.sum(p))
        else:
            v = 1.5
        calls.append((p.tolist(), v))
        if c['fn'] == 'fail' and isnan(v):
            raise ArithmeticError('cannot evaluate')
        return v
    stream = io.StringIO()
    kw = {}
    viz = c['viz'] and c['gens'] <= 8
    if c['client']:
        kw['dask_client'] = client = Client(c['sched'], copies=c['copies'])
    if viz:
        plt.close('all')
        kw.update(viz=True, viz_ylim=(-3, 7))
    drawn = None
    try:
        with patched():
            sol = ea_solve(f, bounds, generations=c['gens'], pop_size=c['pop'], mutation_std=c['std'], maximize=c['maximize'], stream=stream, **kw)
        if viz:
            drawn = [(np.asarray(l.get_xdata(), float).tolist(), np.asarray(l.get_ydata(), float).tolist()) for f_ in map(plt.figure, plt.get_fignums()) for a in f_.axes for l in a.lines]
    finally:
        if viz:
            plt.close('all')
    if c['client']:
        check(len(client.submitted) == c['pop'] * c['gens'], '%d evaluations sent to the client, expected %d', len(client.submitted), c['pop'] * c['gens'])
    check(len(sol) == len(bounds), 'solution of length %d', len(sol))
    for x, (l, h) in zip(sol, bounds):
        check(l <= float(x) <= h, 'solution component %r outside [%g, %g]', x, l, h)
    check(len(calls) == c['pop'] * (c['gens'] + 1), '%d evaluations, expected %d', len(calls), c['pop'] * (c['gens'] + 1))
    for p, _ in calls:
        check(len(p) == len(bounds), 'evaluated a point of length %d', len(p))
        for x, (l, h) in zip(p, bounds):
            check(l <= x <= h, 'evaluated %r outside [%g, %g]', x, l, h)
    vals = [v for _, v in calls]
    pick = lambda vs: max(vs, key=lambda v: score(v, c['maximize']))
    # individuals closer than 1e-9 (relative) count as equal, which may add up over a run
    best = pick(vals)
    mine = [v for p, v in calls if p == [float(x) for x in sol]]
    check(bool(mine), 'solution was never evaluated')
    check(close(pick(mine), best, 1e-6, 1e-12), 'returned a solution of value %r, best evaluated %r', mine, best)
    rows = list(_csv.DictReader(io.StringIO(stream.getvalue())))
    check([int(r['step']) for r in rows] == list(range(c['gens'])), 'progress rows %r', rows)
    if drawn is not None:
        want = [pick(vals[(g + 1) * c['pop']:(g + 2) * c['pop']]) for g in range(c['gens'])]
        ok = any([x for x in xs] == list(range(c['gens'])) and all(close(y, w, 1e-6, 1e-12) for y, w in zip(ys, want)) for xs, ys in drawn)
        check(ok, 'plotted %r, expected the best of each generation %r', drawn, want)
    run = None
    for g, r in enumerate(rows):
        block = vals[(g + 1) * c['pop']:(g + 2) * c['pop']]
        run = pick(block if run is None else [run] + block)
        check(close(float(r['bsf']), run, 1e-6, 1e-12), 'reported best-so-far %r, expected %r', r['bsf'], run)
    ctx.nt(c['gens'] >= 2 and c['pop'] >= 2)
    ctx.label(c['fn'])


@M.sub(case(bounds=st.lists(bnd, min_size=1, max_size=3), gens=st.integers(1, 6), pop=st.integers(2, 6), maximize=bools), n=60, mult=10,
       rule='always')
def unbounded(c, ctx):
    """hard_bounds=False only bounds the initial population."""
    bounds = [tuple(b) for b in c['bounds']]
    calls = []

    def f(p):
        calls.append(np.asarray(p, dtype=float).tolist())
        return float(np.sum(p))
    sol = ea_solve(f, bounds, generations=c['gens'], pop_size=c['pop'], mutation_std=1000.0, maximize=c['maximize'],
                   hard_bounds=False, stream=io.StringIO())
    for p in calls[:c['pop']]:
        for x, (l, h) in zip(p, bounds):
            check(l <= x <= h, 'initial point %r outside bounds', p)
    best = max(sum(p) for p in calls) if c['maximize'] else min(sum(p) for p in calls)
    check(close(float(np.sum(sol)), best, 1e-6, 1e-9), 'not the best evaluated')
    ctx.nt()
