from common import *
from leap_ec import ops
from leap_ec.individual import RobustIndividual

M = Module('P06')
M.boost = 2


def keyfn(name, mx):
    return {'none': None,
            'neg': lambda i: (0, 0.0) if math.isnan(i.fitness) else (1, -i.fitness),
            'abs': lambda i: (0, 0.0) if math.isnan(i.fitness) else (1, abs(i.fitness)),
            'genome': lambda i: int(i.genome[0]) % 3}[name]


def rank(ind, key, mx):
    return key(ind) if key else score(ind.fitness, mx)


fits = lists_upto(any_fit, 0, 9, 35, 70, 130)
fits1 = lists_upto(any_fit, 1, 9, 35, 70, 130)
keys = st.sampled_from(['none', 'none', 'none', 'neg', 'abs', 'genome'])


def two_pops(c):
    mx = c['maximize']
    pop = pop_with(list(c['off']) + list(c['par'] or []), mx,
                   RobustIndividual if c['seed'] % 2 else Individual)
    return pop[:len(c['off'])], pop[len(c['off']):]


def top(values, k):
    return sorted(values, reverse=True)[:k]


@M.sub(case(off=fits1, par=st.one_of(st.none(), fits), size=upto(0, 20, 33, 64, 100, 150),
            maximize=bools, key=keys, curried=bools), n=900, shards=2,
       rule='somebody has to be left out and fitnesses are not all the same')
def truncation(c, ctx):
    mx, key = c['maximize'], keyfn(c['key'], c['maximize'])
    off, par = two_pops(c)
    everyone = off + (par if c['par'] is not None else [])
    kw = {}
    if c['par'] is not None:
        kw['parents'] = par
    if key:
        kw['key'] = key
    o_in, p_in = list(off), list(par)
    if c['par'] is not None:
        kw['parents'] = p_in
    before = [snap(i) for i in everyone]
    if c['curried']:
        out = ops.truncation_selection(size=c['size'], **kw)(o_in)
    else:
        out = ops.truncation_selection(o_in, c['size'], **kw)
    check(isinstance(out, list), 'not a list')
    check(len(out) == min(c['size'], len(everyone)), 'asked %d of %d, got %d',
          c['size'], len(everyone), len(out))
    got = [idx_of(i, everyone) for i in out]
    check(len(set(got)) == len(got), 'same individual selected twice')
    check([snap(i) for i in everyone] == before, 'individuals were modified')
    check(same_list(p_in, par), 'parents list modified')
    r = [rank(i, key, mx) for i in everyone]
    check(sorted((rank(i, key, mx) for i in out), reverse=True) == top(r, len(out)),
          'survivors %r are not the best of %r (maximize=%s key=%s)',
          [i.fitness for i in out], [i.fitness for i in everyone], mx, c['key'])
    ctx.nt(len(out) < len(everyone) and len(set(r)) > 1)
    ctx.label('with-parents', bool(c['par']))
    ctx.label('nan', any(math.isnan(i.fitness) for i in everyone))
    ctx.label('key', key is not None)


@M.sub(case(off=fits1, par=fits1, k=upto(0, 10, 20, 33, 60), maximize=bools, key=keys,
            default_k=bools), n=900, shards=2,
       rule='some parent elite is better than some offspring')
def elitist(c, ctx):
    mx, key = c['maximize'], keyfn(c['key'], c['maximize'])
    off, par = two_pops(c)
    everyone = off + par
    k = 1 if c['default_k'] else c['k']
    kw = {} if c['default_k'] else {'k': k}
    if key:
        kw['key'] = key
    before = [snap(i) for i in everyone]
    p_in = list(par)
    out = ops.elitist_survival(list(off), p_in, **kw) if c['seed'] % 2 else \
        ops.elitist_survival(parents=p_in, **kw)(list(off))
    check(len(out) == len(off), 'survivors %d, offspring %d', len(out), len(off))
    got = [idx_of(i, everyone) for i in out]
    check(len(set(got)) == len(got), 'same individual survives twice')
    check([snap(i) for i in everyone] == before, 'individuals were modified')
    check(same_list(p_in, par), 'parents list modified')
    elites = top([rank(i, key, mx) for i in par], k)
    offr = [rank(i, key, mx) for i in off]
    check(sum(1 for g in got if g >= len(off)) <= k, 'more than k parents survive')
    check(sorted((rank(i, key, mx) for i in out), reverse=True)
          == top(offr + elites, len(off)),
          'elitist survivors %r from offspring %r parents %r k=%d maximize=%s key=%s',
          [i.fitness for i in out], c['off'], c['par'], k, mx, c['key'])
    ctx.nt(bool(elites) and max(elites) > min(offr))
    ctx.label('k>1', k > 1)


@M.sub(case(off=fits, par=fits1, maximize=bools, key=keys), n=900, shards=2,
       rule='an offspring replaced a parent')
def insertion(c, ctx):
    mx, key = c['maximize'], keyfn(c['key'], c['maximize'])
    off, par = two_pops(c)
    everyone = off + par
    before = [snap(i) for i in everyone]
    o_in, p_in = list(off), list(par)
    kw = {'key': key} if key else {}
    out = ops.insertion_selection(o_in, p_in, **kw) if c['seed'] % 2 else \
        ops.insertion_selection(parents=p_in, **kw)(o_in)
    check(isinstance(out, list) and len(out) == len(par),
          'result has the wrong size')
    check(same_list(p_in, par) and out is not p_in, 'given parent list modified')
    check(same_list(o_in, off), 'given offspring list modified')
    check([snap(i) for i in everyone] == before, 'individuals were modified')
    seen = set()
    for i, x in enumerate(out):
        if x is par[i]:
            continue
        j = idx_of(x, off)
        check(j not in seen, 'an offspring was inserted twice')
        seen.add(j)
        check(rank(x, key, mx) >= rank(par[i], key, mx),
              'offspring %r replaced better parent %r', x.fitness, par[i].fitness)
        ctx.nt()
    # the strictly best offspring wins whatever tournament it enters
    if off:
        r = [rank(i, key, mx) for i in off]
        best = max(r)
        rest = sorted([rank(i, key, mx) for i in par] + r)[:-1]
        if rest and best > rest[-1]:
            check(any(x is off[r.index(best)] for x in out),
                  'the best individual of all did not get to compete')
            ctx.label('unique-best-offspring')
        pr = [rank(i, key, mx) for i in par]
        if max(r) < min(pr):
            check(same_list(out, par), 'a worse offspring was inserted')


@M.sub(case(n=st.integers(2, 6), m=st.integers(1, 4), maximize=bools), n=12, mult=6,
       rule='every case (600 repetitions)')
def insertion_uniform(c, ctx):
    """Each offspring faces a uniformly drawn parent."""
    n, m, mx = c['n'], c['m'], c['maximize']
    sign = 1 if mx else -1
    pop = pop_with([sign * float(i) for i in range(n + m)], mx)
    par, off = pop[:n], pop[n:]          # offspring increasingly better
    N = 600
    count = [[0] * n for _ in range(m)]
    for _ in range(N):
        out = ops.insertion_selection(list(off), list(par))
        for pos, x in enumerate(out):
            if x is not par[pos]:
                count[idx_of(x, off)][pos] += 1
    for j in range(m):
        # survives at pos unless a later (better) offspring also drew pos
        p = (1 / n) * ((1 - 1 / n) ** (m - 1 - j))
        for pos in range(n):
            check_binom(count[j][pos], N, p, 'offspring %d at position %d' % (j, pos))
    ctx.nt()
