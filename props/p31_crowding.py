from common import *
from leap_ec.multiobjective.ops import crowding_distance_calc, fast_nondominated_sort, per_rank_crowding_calc, rank_ordinal_sort, sort_by_dominance
from multi import check_crowding, crowding_bounds, make, mo_pop

M = Module('P31')
M.boost = 2
M.assumptions = ['When values of an objective are tied within a front, the order among the tied individuals is free: distances are then checked against the interval over all such orders.']


@M.sub(case(p=mo_pop(max_size=16), ranks=st.sampled_from(['sort', 'ordinal', 'random', 'one']), stale=bools, perm=seeds), n=2500, shards=6, rule='a front with at least three individuals')
def distances(c, ctx):
    vecs, mask = c['p']['vecs'], c['p']['mask']
    inds = make(vecs, mask)
    rs = np.random.RandomState(c['perm'] % 2 ** 32)
    if c['ranks'] == 'sort':
        fast_nondominated_sort(list(inds))
    elif c['ranks'] == 'ordinal':
        rank_ordinal_sort(list(inds))
    else:
        for i in inds:
            i.rank = 1 if c['ranks'] == 'one' else int(rs.randint(1, 4))
    if c['stale']:
        for i in inds:
            i.distance = 55.0
    ranks = [i.rank for i in inds]
    pop = [inds[k] for k in rs.permutation(len(inds))]
    res = crowding_distance_calc(list(pop))
    check(len(res) == len(inds) and sorted(map(id, res)) == sorted(map(id, inds)), '%d of %d individuals returned', len(res), len(inds))
    check([i.rank for i in inds] == ranks and all(list(i.fitness) == v for i, v in zip(inds, vecs)), 'rank or fitness modified')
    big = 0
    exact = True
    for r in set(ranks):
        front = [i for i in inds if i.rank == r]
        vs = [list(i.fitness) for i in front]
        check_crowding(vs, [i.distance for i in front], 'front %r' % r)
        lo, hi, _ = crowding_bounds(vs)
        exact = exact and lo == hi
        big = max(big, len(front))
    ctx.nt(big > 2)
    ctx.label('no tied values', exact)
    ctx.label('a single front', len(set(ranks)) == 1)
    # sorting by dominance uses exactly these attributes
    s = sort_by_dominance(list(pop))
    check(len(s) == len(pop) and sorted(map(id, s)) == sorted(map(id, pop)), 'sort_by_dominance lost individuals')
    keys = [(i.rank, -i.distance) for i in s]
    check(keys == sorted(keys), 'sort_by_dominance order %r', keys)


@M.sub(case(n=st.sampled_from([20, 60, 150]), m=upto(1, 4, 7), grid=st.sampled_from([5, 1000, 10 ** 6]), scale=st.sampled_from([1.0, 2.0 ** -40, 2.0 ** 300]), mask=st.lists(bools, min_size=7, max_size=7), fronts=st.integers(0, 2)), n=60, shards=2, mult=10, rule='always')
def large(c, ctx):
    rs = np.random.RandomState(c['seed'] % 2 ** 32)
    vecs = (rs.randint(-c['grid'], c['grid'], size=(c['n'], c['m'])) * c['scale']).tolist()
    inds = make(vecs, c['mask'][:c['m']])
    for i in inds:
        i.rank = int(rs.randint(1, 3 if c['fronts'] < 2 else c['n'] // 3)) if c['n'] < 100 or c['fronts'] else 1
    crowding_distance_calc(list(inds))
    for r in sorted({i.rank for i in inds}):
        front = [i for i in inds if i.rank == r]
        check_crowding([list(i.fitness) for i in front], [i.distance for i in front], 'front %d' % r)
    ctx.nt(True)


@M.sub(case(p=mo_pop(max_size=10), flip=st.lists(bools, min_size=4, max_size=4).map(lambda l: l * 3)), n=800, shards=2, rule='at least three individuals')
def directions(c, ctx):
    """Distances do not depend on the directions, nor on who else is in other fronts."""
    vecs, mask = c['p']['vecs'], c['p']['mask']
    m2 = [a != b for a, b in zip(mask, c['flip'])]
    got = []
    for mk in (mask, m2):
        inds = make(vecs, mk)
        res = per_rank_crowding_calc(list(inds), inds[0].problem.maximize)
        check(len(res) == len(inds) and sorted(map(id, res)) == sorted(map(id, inds)), 'individuals lost')
        check_crowding(vecs, [i.distance for i in inds], 'one front')
        got.append([i.distance for i in inds])
    lo, hi, _ = crowding_bounds(vecs)
    if lo == hi:
        check(all(close(a, b) for a, b in zip(*got)), 'distances %r under %r but %r under %r', got[0], mask, got[1], m2)
    ctx.nt(len(vecs) > 2)
