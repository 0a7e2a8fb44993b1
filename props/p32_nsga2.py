from common import *
import random
from leap_ec import ops
from leap_ec.multiobjective.nsga2 import generalized_nsga_2
from leap_ec.multiobjective.ops import fast_nondominated_sort, rank_ordinal_sort
from leap_ec.multiobjective.problems import (SCHProblem, ZDT1Problem, ZDT2Problem, ZDT3Problem, ZDT4Problem, ZDT5Problem, ZDT6Problem)
from leap_ec.representation import Representation
from multi import MO, crowding_bounds, peel

M = Module('P32')
M.assumptions = ['Survival within the last, partly kept front is checked against crowding-distance intervals (exact when no objective value is tied in that front).']


class Rec(MO):
    def __init__(self, maximize, grid):
        super().__init__(maximize)
        self.grid = grid
        self.evals = 0

    def evaluate(self, phenome, *a, **k):
        self.evals += 1
        return np.round(np.array(phenome, dtype=float)) if self.grid else np.array(phenome, dtype=float)


def check_survival(comb, surv, size, mask):
    """comb: list of individuals; surv: survivors (identity subset)."""
    check(len(surv) == size, '%d survivors of population size %d', len(surv), size)
    ids_ = [id(i) for i in surv]
    check(len(set(ids_)) == len(ids_), 'a survivor appears twice')
    pos = {id(i): k for k, i in enumerate(comb)}
    check(all(i in pos for i in ids_), 'a survivor is neither a parent nor an offspring')
    vecs = [list(map(float, i.fitness)) for i in comb]
    rank = peel(vecs, mask)
    kept = [False] * len(comb)
    for i in ids_:
        kept[pos[i]] = True
    last = max(r for r, k in zip(rank, kept) if k)
    for k, r in enumerate(rank):
        if r < last:
            check(kept[k], 'an individual of front %d was dropped while one of front %d survived', r, last)
    front = [k for k, r in enumerate(rank) if r == last]
    lo, hi, _ = crowding_bounds([vecs[k] for k in front])
    L, H = dict(zip(front, lo)), dict(zip(front, hi))
    for a in front:
        for b in front:
            if kept[a] and not kept[b]:
                check(not H[a] < L[b] - 1e-9 * (1 + (L[b] if math.isfinite(L[b]) else 0)), 'in the last front %r (distance at most %r) survived and %r (at least %r) was dropped',
                      vecs[a], H[a], vecs[b], L[b])
    return len(front) > sum(kept[k] for k in front), last


@M.sub(case(m=upto(1, 3, 5), mask=st.lists(bools, min_size=5, max_size=5), n=upto(2, 10, 30, 60), off=upto(1, 12, 30, 60), gens=upto(0, 5, 12), start=st.integers(0, 3), sort=st.sampled_from(['default', 'fast', 'ordinal']),
            grid=bools, stop=st.integers(0, 6), tour=bools, init=bools), n=300, shards=8, mult=10, rule='a front was cut during the run')
def run(c, ctx):
    random.seed(c['seed'])
    np.random.seed(c['seed'] % 2 ** 32)
    mask = c['mask'][:c['m']]
    problem = Rec(mask, c['grid'])
    rng = random.Random(c['seed'])
    hist = []
    inits = []

    def init():
        g = np.array([rng.uniform(-3, 3) for _ in mask])
        inits.append(g.copy())
        return g

    def step(nxt):
        for i in nxt:
            i.genome = i.genome + np.array([rng.uniform(-1, 1) for _ in mask])
            i.fitness = None
            yield i

    offs = []

    def tap(pop):
        offs.append(list(pop))
        return pop
    pars = []

    def stop(pop):
        pars.append(list(pop))
        return len(pars) > c['stop']
    cx = {'leap': {}}
    kw = {}

    def again(i):
        j = copy.copy(i)
        j.genome = i.genome.copy()
        return j
    if c['sort'] == 'fast':
        kw['rank_func'] = fast_nondominated_sort
    elif c['sort'] == 'ordinal':
        kw['rank_func'] = rank_ordinal_sort
    if c['init']:
        # like a distributed evaluator, hands back copies
        kw['init_evaluate'] = lambda pop: (hist.append(len(pop)), Individual.evaluate_population([again(i) for i in pop]))[1]
    sel = ops.tournament_selection if c['tour'] else ops.random_selection
    end = c['start'] + c['gens']
    final = generalized_nsga_2(end, c['n'], problem, Representation(initialize=init), [sel, ops.clone, step, ops.evaluate, ops.pool(size=c['off']), tap], stop=stop,
                               start_generation=c['start'], context=cx, **kw)
    g = min(c['gens'], c['stop'])
    check(len(offs) == g, '%d generations run, expected %d', len(offs), g)
    check(cx['leap']['generation'] == c['start'] + g, 'generation counter %r', cx['leap'])
    check(len(inits) == c['n'], '%d initial genomes for population size %d', len(inits), c['n'])
    check(problem.evals == c['n'] + g * c['off'], '%d evaluations for %d individuals', problem.evals, c['n'] + g * c['off'])
    if c['init']:
        check(hist == [c['n']], 'initial evaluator calls %r', hist)
    if len(pars) == g:          # the stop condition is not consulted once the budget is used up
        pars.append(list(final))
    check(same_list(pars[g], final), 'the returned population is not the last one')
    check(len(pars[0]) == c['n'] and all(np.array_equal(a.genome, b) for a, b in zip(pars[0], inits)), 'initial population is not the initialised one')
    cut = False
    for k in range(g):
        check(len(offs[k]) == c['off'], 'offspring tap')
        cu, last = check_survival(offs[k] + pars[k], pars[k + 1], c['n'], mask)
        cut = cut or cu
        # no found non-dominated vector is lost unless the first front had to be cut
    for i in final:
        w = np.round(i.genome) if c['grid'] else i.genome
        check(np.array_equal(np.asarray(i.fitness), w), 'fitness of a survivor does not belong to its genome')
    ctx.nt(cut)
    ctx.label('stopped early', c['stop'] < c['gens'])


@M.sub(case(mx=bools), n=4, rule='always')
def needs_multiobjective(c, ctx):
    p = FunctionProblem(lambda x: 0.0, c['mx'])
    check(raises((AssertionError, TypeError, ValueError), generalized_nsga_2, 1, 2, p, Representation(initialize=lambda: np.zeros(1)), [ops.random_selection, ops.clone, ops.evaluate, ops.pool(size=2)], context={'leap': {}}),
          'a single-objective problem was accepted')
    ctx.nt(True)


unit = st.one_of(st.sampled_from([0.0, 1.0, 0.5]), st.integers(0, 1000).map(lambda i: i / 1000))


def g19(x, n):
    return 1 + 9 * math.fsum(x[1:]) / (n - 1)


def f_zdt1(x, n):
    g = g19(x, n)
    return x[0], g * (1 - math.sqrt(x[0] / g))


def f_zdt2(x, n):
    g = g19(x, n)
    return x[0], g * (1 - (x[0] / g) ** 2)


def f_zdt3(x, n):
    g = g19(x, n)
    return x[0], g * (1 - math.sqrt(x[0] / g) - x[0] / g * math.sin(10 * math.pi * x[0]))


def f_zdt4(x, n):
    g = 1 + 10 * (n - 1) + math.fsum(v * v - 10 * math.cos(4 * math.pi * v) for v in x[1:])
    return x[0], g * (1 - math.sqrt(x[0] / g))


def f_zdt5(x, n):
    f1 = 1 + sum(x[:30])
    g = 0
    for k in range(n - 1):
        u = sum(x[30 + 5 * k:35 + 5 * k])
        g += 2 + u if u < 5 else 1
    return f1, g / f1


def f_zdt6(x, n):
    f1 = 1 - math.exp(-4 * x[0]) * math.sin(6 * math.pi * x[0]) ** 6
    g = 1 + 9 * (math.fsum(x[1:]) / (n - 1)) ** 0.25
    return f1, g * (1 - (f1 / g) ** 2)


ZDT = {1: (ZDT1Problem, f_zdt1, 30), 2: (ZDT2Problem, f_zdt2, 30), 3: (ZDT3Problem, f_zdt3, 10), 4: (ZDT4Problem, f_zdt4, 30), 5: (ZDT5Problem, f_zdt5, 11), 6: (ZDT6Problem, f_zdt6, 10)}


@M.sub(case(k=st.integers(1, 6), n=st.integers(2, 12), u=st.lists(unit, min_size=100, max_size=100), bits=st.lists(st.integers(0, 1), min_size=400, max_size=400), ones=st.integers(0, 3), dflt=bools, out=st.tuples(st.integers(0, 99), st.sampled_from([-0.25, -6.0, 1.25, 6.0])), chk=bools),
       n=1500, shards=4, rule='a phenome other than the origin')
def benchmarks(c, ctx):
    cls, f, dn = ZDT[c['k']]
    n = dn if c['dflt'] else c['n']
    p = cls(check_phenome=c['chk']) if c['dflt'] else cls(n, check_phenome=c['chk'])
    check(list(p.maximize) == [-1, -1] or list(p.maximize) == [False, False], 'directions')
    check(p.worse_than(np.array([1., 1.]), np.array([0., 1.])) and not p.worse_than(np.array([0., 1.]), np.array([1., 1.])), 'ZDT is not minimised')
    if c['k'] == 5:
        x = c['bits'][:30 + 5 * (n - 1)]
        for b in range(n - 1):
            if c['ones'] == 0 and b % 2:
                x[30 + 5 * b:35 + 5 * b] = [1] * 5
        check(p.phenome_length == len(x), 'phenome length %r', p.phenome_length)
        want_b = [(0, 1)] * len(x)
    elif c['k'] == 4:
        x = [c['u'][0]] + [10 * v - 5 for v in c['u'][1:n]]
        want_b = [(0, 1)] + [(-5, 5)] * (n - 1)
    else:
        x = c['u'][:n]
        want_b = [(0, 1)] * n
    check([tuple(b) for b in p.bounds] == want_b, 'ZDT%d bounds %r', c['k'], p.bounds)
    a = np.array(x)
    got = p.evaluate(a)
    want = f(x, n)
    check(len(got) == 2 and close(got[0], want[0]) and close(got[1], want[1], 1e-9, 1e-7), 'ZDT%d(%r) = %r, formula %r', c['k'], x, list(got), want)
    check(a.tolist() == x, 'phenome changed')
    # out-of-range phenomes are rejected exactly when checking is on
    i, v = c['out'][0] % len(x), c['out'][1]
    lo, hi = want_b[i]
    y = a.astype(float)
    y[i] = v
    if c['chk']:
        bad = not lo <= v <= hi
        if c['k'] != 5 or bad:
            check(raises(AssertionError, p.evaluate, y) == bad, 'ZDT%d with gene %d = %r: rejected %r', c['k'], i, v, not bad)
    ctx.nt(any(x))
    ctx.label('ZDT%d' % c['k'], True)


@M.sub(case(x=st.integers(-8000, 8000).map(lambda i: i / 8), one=bools), n=200, rule='x other than 0 and 2')
def sch(c, ctx):
    p = SCHProblem()
    got = p.evaluate(np.array([c['x']]) if c['one'] else np.float64(c['x']))
    check(float(got[0]) == c['x'] ** 2 and close(got[1], (c['x'] - 2) ** 2) and len(got) == 2, 'SCH(%r) = %r', c['x'], got)
    check(p.worse_than(np.array([1., 1.]), np.array([0., 1.])), 'SCH is not minimised')
    ctx.nt(c['x'] not in (0, 2))
