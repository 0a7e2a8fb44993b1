from common import *
from multi import MO, dominates, make

M = Module('P29')
M.assumptions = ['Fitness vectors are arrays without NaN; infinities are included.']

val = st.one_of(st.integers(-2, 2).map(float), st.integers(-2, 2).map(float), eighths, big, infs)


@st.composite
def triples(draw):
    m = draw(upto(1, 5, 9, 12, 20))
    vs = [draw(st.lists(val, min_size=m, max_size=m)) for _ in range(3)]
    # derive close relatives so that dominance and ties are frequent
    for k in (1, 2):
        if draw(bools):
            vs[k] = [v if draw(st.integers(0, 3)) else v + draw(st.sampled_from([-1.0, 1.0, 0.125])) for v in vs[k - 1]]
    return dict(mask=draw(st.lists(bools, min_size=m, max_size=m)), vs=vs, flip=draw(st.lists(bools, min_size=m, max_size=m)),
                mtype=draw(st.sampled_from(['list', 'tuple', 'array'])), ints=draw(bools))


@M.sub(case(t=triples()), n=4000, shards=4, rule='a pair where one dominates the other and a pair where neither does')
def dominance(c, ctx):
    t = c['t']
    mask, vs = t['mask'], t['vs']
    mt = {'list': list, 'tuple': tuple, 'array': np.array, 'npbool': lambda v: [np.bool_(x) for x in v], 'int': lambda v: [int(x) for x in v]}[t['mtype']]
    p = MO(maximize=mt(mask))
    arr = [np.array(v) for v in vs]
    if t['ints'] and all(float(x).is_integer() and abs(x) < 1e9 for v in vs for x in v):
        arr = [a.astype(int) for a in arr]
    inds = make(vs, mask, p)
    for i, a in zip(inds, arr):
        i.fitness = a
    keep = [a.copy() for a in arr]
    kinds = set()
    D = {}
    for x in range(3):
        for y in range(3):
            d = dominates(vs[y], vs[x], mask)       # x is worse than y
            D[x, y] = d
            r = dominates(vs[x], vs[y], mask)
            check(bool(p.worse_than(arr[x], arr[y])) == d, 'worse_than(%r, %r) under %r is %r', vs[x], vs[y], mask, not d)
            check(bool(p.equivalent(arr[x], arr[y])) == (not d and not r), 'equivalent(%r, %r) under %r is %r', vs[x], vs[y], mask, d or r)
            check(bool(inds[x] < inds[y]) == d and bool(inds[y] > inds[x]) == d, 'individuals compare %r < %r under %r as %r', vs[x], vs[y], mask, not d)
            if x != y:
                check(bool(inds[x] == inds[y]) == (not d and not r), 'individuals compare %r == %r', vs[x], vs[y])
                kinds.add(d or r)
    for x in range(3):
        check(not p.worse_than(arr[x], arr[x]), 'a vector dominates itself')
    for x in range(3):
        for y in range(3):
            check(not (p.worse_than(arr[x], arr[y]) and p.worse_than(arr[y], arr[x])), 'dominance both ways')
            for z in range(3):
                if p.worse_than(arr[x], arr[y]) and p.worse_than(arr[y], arr[z]):
                    check(p.worse_than(arr[x], arr[z]), 'dominance is not transitive on %r', vs)
    # negating an objective together with its direction
    q = MO(maximize=[m != f for m, f in zip(mask, t['flip'])])
    neg = [np.array([-v if f else v for v, f in zip(a.tolist(), t['flip'])]) for a in arr]
    for x in range(3):
        for y in range(3):
            check(bool(q.worse_than(neg[x], neg[y])) == bool(p.worse_than(arr[x], arr[y])), 'negating objectives %r changes dominance', t['flip'])
    check(all(np.array_equal(a, b) for a, b in zip(arr, keep)), 'fitness vectors modified')
    ctx.nt(len(kinds) == 2)
    ctx.label('mixed directions', len(set(mask)) == 2)


@M.sub(case(t=triples()), n=500, shards=2, rule='two or more objectives')
def evaluation(c, ctx):
    """Evaluating keeps the objective vector as the individual's fitness."""
    t = c['t']
    p = MO(maximize=t['mask'])
    pop = [Individual(np.array(v), decoder=IdentityDecoder(), problem=p) for v in t['vs']]
    pop = Individual.evaluate_population(pop)
    for i, v in zip(pop, t['vs']):
        check(list(i.fitness) == v, 'fitness %r, expected %r', i.fitness, v)
    a, b = pop[0], pop[1]
    if dominates(t['vs'][1], t['vs'][0], t['mask']):
        check(max([a, b]) is b and min([a, b]) is a, 'max or min of a dominated pair')
    ctx.nt(len(t['mask']) > 1)
