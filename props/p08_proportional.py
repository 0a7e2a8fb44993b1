from common import *
import itertools
from leap_ec import ops

M = Module('P08')
M.boost = 3
M.assumptions = ['proportional frequencies judged at 6.5 sigma; SUS counts exactly']

ints = st.lists(st.integers(0, 12), min_size=1, max_size=8)
negs = st.lists(st.integers(-9, 9), min_size=1, max_size=8)


def setup(c):
    """returns (population, kwargs, expected values)"""
    u = c.get('unit', 1.0)
    vals = [float(v) * u for v in c['vals']]
    mode, e = c['mode'], c['exp']
    if mode == 'popmin':
        kw = {'offset': 'pop-min'}
        off = -min(vals)
    elif mode == 'offset':
        off = max(0.0, -min(vals)) + c['plus'] * u
        kw = {'offset': off}
    else:
        vals = [abs(v) for v in vals]
        off, kw = 0.0, {}
    if e != 1:
        kw['exponent'] = e
    if c['key']:
        pop = pop_with([99.0] * len(vals), True)
        for p, v in zip(pop, vals):
            p.metric = v
        kw['key'] = lambda i: i.metric
    else:
        pop = pop_with(vals, True)
    want = [(v + off) ** e for v in vals]
    if not any(want):
        want = [1.0] * len(vals)
    return pop, kw, want


conf = dict(vals=st.one_of(ints, negs, st.lists(st.sampled_from([0, 0, 1, 5]), min_size=1, max_size=6),
                           st.integers(1, 6).flatmap(lambda n: st.integers(-3, 3).map(lambda v: [v] * n))),
            mode=st.sampled_from(['plain', 'popmin', 'offset']), plus=st.sampled_from([0.0, 1.0, 2.5]),
            exp=st.sampled_from([1, 1, 2, 3, 0.5]), key=bools, unit=st.sampled_from([1.0, 1.0, 1.0, 2.0 ** -40, 2.0 ** 30]))


@M.sub(case(**conf), n=120, mult=8, shards=3,
       rule='at least two different values (2000 draws per case)')
def proportional(c, ctx):
    pop, kw, want = setup(c)
    N = 2000
    cnt = [0] * len(pop)
    for ind in itertools.islice(ops.proportional_selection(pop, **kw), N):
        cnt[idx_of(ind, pop)] += 1
    tot = sum(want)
    for i, w in enumerate(want):
        check_binom(cnt[i], N, w / tot, 'member %d of values %r' % (i, want))
        if w == 0:
            check(cnt[i] == 0, 'member of zero value was selected')
    ctx.nt(len(set(want)) > 1)
    ctx.label(c['mode'])
    ctx.label('all-equal', len(set(want)) == 1)


@M.sub(case(n=st.one_of(st.none(), upto(1, 15, 40, 101)), shuffle=bools,
            passes=upto(1, 4, 9), **dict(conf, vals=st.one_of(conf['vals'], conf['vals'], lists_upto(st.integers(-9, 12), 1, 9, 35, 70)))), n=1000, shards=2,
       rule='at least two different values and at least two points')
def sus(c, ctx):
    pop, kw, want = setup(c)
    n = c['n'] if c['n'] is not None else len(pop)
    if c['n'] is not None:
        kw['n'] = c['n']
    if not c['shuffle']:
        kw['shuffle'] = False
    it = ops.sus_selection(pop, **kw) if c['seed'] % 2 else ops.sus_selection(**kw)(pop)
    tot = sum(want)
    first = None
    for _ in range(c['passes']):
        picks = [idx_of(next(it), pop) for _ in range(n)]
        for i, w in enumerate(want):
            e = n * w / tot
            k = picks.count(i)
            check(math.floor(e + 1e-9) <= k <= math.ceil(e - 1e-9),
                  'member %d of values %r picked %d times in a pass of %d', i, want, k, n)
        if first is None:
            first = picks
        elif not c['shuffle']:
            check(picks == first, 'pass differs although resampling is off')
    ctx.nt(len(set(want)) > 1 and n > 1)
    ctx.label('multi-pass', c['passes'] > 1)


@M.sub(case(n=st.one_of(st.none(), st.integers(1, 6)), **conf), n=24, mult=6, shards=2,
       rule='some expected count is fractional (600 passes per case)')
def sus_unbiased(c, ctx):
    """Averaged over random starts the counts equal the expected counts, both
    across fresh selectors and across resampled passes."""
    pop, kw, want = setup(c)
    n = c['n'] if c['n'] is not None else len(pop)
    if c['n'] is not None:
        kw['n'] = c['n']
    tot = sum(want)
    N = 600
    for fresh in (True, False):
        cnt = [0] * len(pop)
        it = ops.sus_selection(pop, **kw)
        for _ in range(N):
            if fresh:
                it = ops.sus_selection(pop, **kw)
            for _ in range(n):
                cnt[idx_of(next(it), pop)] += 1
        for i, w in enumerate(want):
            e = n * w / tot
            base = math.floor(e + 1e-9)
            frac = max(0.0, e - base)
            if frac < 1e-9:
                frac = 0.0
            check_binom(cnt[i] - N * base, N, frac,
                        'extra picks of member %d of %r (n=%d)' % (i, want, n))
            ctx.nt(frac > 0)


@M.sub(case(vals=negs, off=st.integers(-3, 3), n=st.integers(-2, 3), key=bools), n=400,
       rule='some value is negative after the offset, or n is not positive')
def rejects(c, ctx):
    pop = pop_with([float(v) for v in c['vals']])
    neg = min(c['vals']) + c['off'] < 0
    for f, kw in ((ops.proportional_selection, {}), (ops.sus_selection, {}),
                  (ops.sus_selection, {'n': c['n']})):
        bad = neg or kw.get('n', 1) <= 0
        err = raises(ValueError, lambda: next(f(pop, offset=c['off'], **kw)))
        check(err == bad, '%s offset=%d values=%r kw=%r: error=%s expected=%s',
              'selection', c['off'], c['vals'], kw, err, bad)
        ctx.nt(bad)


@M.sub(case(m=st.sampled_from([30, 90, 250, 600]), first=bools, heavy=st.integers(2, 6), scale=st.sampled_from([1.0, 0.001, 37.5]),
            sus=bools), n=10, mult=6, rule='every case (6000 draws)')
def many_small(c, ctx):
    """Members of tiny value keep their joint share next to a dominating one."""
    m, N = c['m'], 6000
    vals = [c['scale']] * m
    vals.insert(0 if c['first'] else m, c['scale'] * m * c['heavy'])
    pop = pop_with(vals, True)
    where = {id(p): j for j, p in enumerate(pop)}
    big = 0 if c['first'] else m
    it = ops.sus_selection(pop, n=60) if c['sus'] else ops.proportional_selection(pop)
    cnt = [0] * (m + 1)
    for ind in itertools.islice(it, N):
        cnt[where[id(ind)]] += 1
    small = cnt[:big] + cnt[big + 1:]
    p = 1 / (1 + c['heavy'])
    check_binom(sum(small), N, p, 'all %d members of small value' % m)
    for lo, hi in ((0, m // 2), (m // 2, m), (0, m // 3)):
        check_binom(sum(small[lo:hi]), N, p * (hi - lo) / m, 'small members %d to %d of %d' % (lo, hi, m))
    ctx.nt()
    ctx.label('sus', c['sus'])
