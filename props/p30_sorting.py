from common import *
from leap_ec.multiobjective.ops import fast_nondominated_sort, rank_ordinal_sort
from multi import make, mo_pop, peel

M = Module('P30')
M.assumptions = ['Fitness vectors are arrays of finite numbers or infinities, all for the same problem.']
SORTS = {'fast': fast_nondominated_sort, 'ordinal': rank_ordinal_sort}


@M.sub(case(p=mo_pop(max_size=18), split=st.integers(0, 18), perm=seeds, use_parents=bools, curried=bools, stale=bools), n=2500, shards=6, rule='at least three individuals in at least two fronts')
def layering(c, ctx):
    vecs, mask = c['p']['vecs'], c['p']['mask']
    want = peel(vecs, mask)
    order = list(np.random.RandomState(c['perm'] % 2 ** 32).permutation(len(vecs)))
    for name, sort in SORTS.items():
        for perm in (list(range(len(vecs))), order):
            inds = make(vecs, mask)
            if c['stale']:
                for i in inds:
                    i.rank, i.distance, i.dominates, i.dominated_by = 9, 1.0, list(inds), 4
            if c['split'] % 5 == 0:      # equal genomes with different (noisy) fitnesses
                for i in inds:
                    i.genome = np.zeros(2)
            pop = [inds[k] for k in perm]
            k = c['split'] % len(pop)
            if c['use_parents'] and k:
                off, par = pop[:k], pop[k:]
                keep = list(par)
                res = sort(parents=par)(off) if c['curried'] else sort(off, parents=par)
                check(same_list(par, keep), '%s: the parent list was modified', name)
            else:
                res = sort(list(pop))
            check(len(res) == len(pop) and sorted(id(x) for x in res) == sorted(id(x) for x in pop), '%s: %d of %d individuals returned', name, len(res), len(pop))
            got = [i.rank for i in inds]
            check([int(r) for r in got] == want, '%s: ranks %r, expected %r for %r maximising %r', name, got, want, vecs, mask)
            check(all(list(i.fitness) == v for i, v in zip(inds, vecs)), '%s: fitness modified', name)
    ctx.nt(len(vecs) > 2 and max(want) > 1)
    ctx.label('duplicates', len(set(map(tuple, vecs))) < len(vecs))
    ctx.label('mixed directions', len(set(mask)) == 2)
    ctx.label('three or more fronts', max(want) > 2)


@M.sub(case(n=st.one_of(st.integers(30, 120), st.sampled_from([210, 300])), m=upto(2, 5, 8), grid=st.integers(2, 40), mask=st.lists(bools, min_size=5, max_size=5).map(lambda l: l + l), chain=st.sampled_from([0, 0, 1, 2]), scale=st.sampled_from([1.0, 2.0 ** -40, 1e6]), at=st.sampled_from([0.0, 0.0, 2.0 ** 27])), n=60, shards=6, mult=10, rule='always (30 or more individuals)')
def large(c, ctx):
    rs = np.random.RandomState(c['seed'] % 2 ** 32)
    vecs = rs.randint(0, c['grid'], size=(c['n'], c['m'])).astype(float).tolist()
    mask = c['mask'][:c['m']]
    if c['chain']:      # long chains of dominance: many fronts
        for k, v in enumerate(vecs):
            for j in range(c['m']):
                v[j] = float((k // c['chain']) * (1 if mask[j] else -1))
        rs.shuffle(vecs)
    # scaled by, and far from zero relative to, the spacing of the values
    vecs = [[(x + c['at']) * c['scale'] for x in v] for v in vecs]
    want = peel(vecs, mask)
    for name, sort in SORTS.items():
        inds = make(vecs, mask)
        sort(list(inds))
        got = [int(i.rank) for i in inds]
        check(got == want, '%s: ranks differ at %r', name, [(v, g, w) for v, g, w in zip(vecs, got, want) if g != w][:3])
    ctx.nt(True)
    ctx.label('more than 100 fronts', max(want) > 100)


@M.sub(case(vs=st.lists(st.lists(st.one_of(st.integers(-2, 2).map(float), infs), min_size=2, max_size=2), min_size=1, max_size=10), mask=st.lists(bools, min_size=2, max_size=2)), n=400, shards=2, rule='an infinite objective')
def infinite(c, ctx):
    want = peel(c['vs'], c['mask'])
    for name, sort in SORTS.items():
        inds = make(c['vs'], c['mask'])
        sort(list(inds))
        check([int(i.rank) for i in inds] == want, '%s: ranks %r, expected %r for %r', name, [i.rank for i in inds], want, c['vs'])
    ctx.nt(any(math.isinf(x) for v in c['vs'] for x in v))
