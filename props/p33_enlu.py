from common import *
from leap_ec.multiobjective.asynchronous import ENLUInserter, enlu_inds_rank
from multi import check_crowding, crowding_bounds, make, mo_pop, peel

M = Module('P33')
M.boost = 2
M.assumptions = ['Fitness vectors are finite; non-viable individuals are covered under P34.',
                 'With tied objective values in the worst front the choice of the removed individual is checked against crowding intervals.']


def state_ok(pop, mask):
    vecs = [list(i.fitness) for i in pop]
    rank = peel(vecs, mask)
    check([int(i.rank) for i in pop] == rank, 'ranks %r, expected %r for %r maximising %r', [i.rank for i in pop], rank, vecs, mask)
    for r in set(rank):
        f = [k for k, q in enumerate(rank) if q == r]
        check_crowding([vecs[k] for k in f], [pop[k].distance for k in f], 'front %d' % r)
    return rank


@M.sub(case(p=mo_pop(min_size=2, max_size=22), cap=upto(1, 14, 21)), n=900, shards=6, rule='at least two fronts and at least one overflow')
def insertion(c, ctx):
    vecs, mask = c['p']['vecs'], c['p']['mask']
    inds = make(vecs, mask)
    ins = ENLUInserter()
    pop = []
    fronts, over = 0, 0
    for ind in inds:
        before = list(pop)
        ins(ind, pop, c['cap'])
        cand = before + [ind]
        check(len(set(map(id, pop))) == len(pop), 'a member appears twice')
        check(all(any(x is y for y in cand) for x in pop), 'the population holds somebody who was never inserted')
        if len(cand) <= c['cap']:
            check(len(pop) == len(cand), '%d members after %d insertions below capacity %d', len(pop), len(cand), c['cap'])
        else:
            over += 1
            check(len(pop) == c['cap'], '%d members at capacity %d', len(pop), c['cap'])
            gone = [x for x in cand if not any(x is y for y in pop)]
            cv = [list(x.fitness) for x in cand]
            rank = peel(cv, mask)
            worst = [k for k, r in enumerate(rank) if r == max(rank)]
            lo, hi, _ = crowding_bounds([cv[k] for k in worst])
            k = [i for i, w in enumerate(worst) if cand[w] is gone[0]]
            check(k, 'removed %r of front %d although the worst front is %d', list(gone[0].fitness), rank[[i for i, x in enumerate(cand) if x is gone[0]][0]], max(rank))
            check(not lo[k[0]] > min(hi) + 1e-9, 'removed %r with crowding distance at least %r although another has at most %r', list(gone[0].fitness), lo[k[0]], min(hi))
        r = state_ok(pop, mask)
        fronts = max(fronts, max(r))
    check(all(list(i.fitness) == v for i, v in zip(inds, vecs)), 'fitness modified')
    ctx.nt(fronts > 1 and over > 0)
    ctx.label('three fronts or more', fronts > 2)
    ctx.label('duplicate vectors', len(set(map(tuple, vecs))) < len(vecs))


@M.sub(case(p=mo_pop(min_size=1, max_size=16)), n=900, shards=4, rule='at least two fronts')
def layers(c, ctx):
    """The incremental ranking itself, without capacity."""
    vecs, mask = c['p']['vecs'], c['p']['mask']
    inds = make(vecs, mask)
    lp = []
    for k, ind in enumerate(inds):
        start, end = enlu_inds_rank(ind, lp)
        want = peel(vecs[:k + 1], mask)
        check(all(lp), 'an empty layer')
        check(len(lp) == max(want), '%d layers, expected %d', len(lp), max(want))
        for d, layer in enumerate(lp, 1):
            check(sorted(i.tag for i in layer) == [j for j, r in enumerate(want) if r == d], 'layer %d holds %r, expected %r', d, sorted(i.tag for i in layer), [j for j, r in enumerate(want) if r == d])
            check(all(int(i.rank) == d for i in layer), 'ranks in layer %d: %r', d, [i.rank for i in layer])
        check(start == want[k] - 1, 'insertion reported from layer %r, individual is in layer %d', start, want[k])
    ctx.nt(max(want) > 1)


@M.sub(case(n=st.integers(30, 70), m=upto(1, 3, 5), grid=st.sampled_from([3, 8, 40, 10 ** 6]), mask=st.lists(bools, min_size=5, max_size=5), cap=st.sampled_from([12, 25, 40, 100]), chain=st.integers(0, 3)), n=40, shards=4, mult=10,
       rule='more than ten fronts, or an overflow')
def long_run(c, ctx):
    """Many insertions, many fronts: the state still equals sorting from scratch."""
    rs = np.random.RandomState(c['seed'] % 2 ** 32)
    mask = c['mask'][:c['m']]
    vecs = rs.randint(0, c['grid'], size=(c['n'], c['m'])).astype(float).tolist()
    if c['chain']:          # noisy chain of dominance
        for v in vecs:
            b = rs.randint(0, 60)
            for j in range(c['m']):
                v[j] = float((b + rs.randint(0, c['chain'])) * (1 if mask[j] else -1))
    inds = make(vecs, mask)
    ins = ENLUInserter()
    pop, fronts = [], 0
    for ind in inds:
        cand = pop + [ind]
        cv = [list(x.fitness) for x in cand]
        rank = peel(cv, mask)
        ins(ind, pop, c['cap'])
        check(len(pop) == min(len(cand), c['cap']), '%d members at capacity %d', len(pop), c['cap'])
        if len(cand) > c['cap']:
            gone = [k for k, x in enumerate(cand) if not any(x is y for y in pop)]
            check(len(gone) == 1 and rank[gone[0]] == max(rank), 'removed one of front %r, worst is %d', [rank[k] for k in gone], max(rank))
        fronts = max(fronts, max(state_ok(pop, mask)))
    ctx.nt(fronts > 10 or c['n'] > c['cap'])
    ctx.label('more than 20 fronts', fronts > 20)
