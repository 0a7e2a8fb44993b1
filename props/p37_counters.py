from common import *
import itertools
from leap_ec.util import inc_generation, inc_births, get_step, birth_brander

M = Module('P37')
M.boost = 3


@M.sub(case(start=st.integers(-3, 50), steps=st.lists(st.sampled_from(['inc', 'read']), max_size=30),
            ncb=upto(0, 3, 7), default=bools), n=400, rule='at least two increments with a callback')
def generation(c, ctx):
    seen = [[] for _ in range(c['ncb'])]
    cx = {'leap': dict({'other': 7}, **({'generation': 55} if c['seed'] % 2 else {}))}     # perhaps left by an earlier run
    atcb = []
    order = []
    cbs = [(lambda k: lambda g: (seen[k].append(g), order.append(k), atcb.append((g, cx['leap']['generation']))))(k) for k in range(c['ncb'])]
    start = 0 if c['default'] else c['start']
    inc = inc_generation(context=cx, callbacks=cbs) if c['default'] else \
        inc_generation(start_generation=start, context=cx, callbacks=cbs)
    cur, hist = start, []
    check(inc.generation() == cur and cx['leap']['generation'] == cur, 'start: %r / %r, expected %r',
          inc.generation(), cx['leap']['generation'], cur)
    for s in c['steps']:
        if s == 'inc':
            cur += 1
            hist.append(cur)
            check(inc() == cur, 'increment returned the wrong generation')
        check(inc.generation() == cur and cx['leap']['generation'] == cur, 'generation drifted')
    for k in range(c['ncb']):
        check(seen[k] == hist, 'callback %d saw %r, expected %r', k, seen[k], hist)
    check(order == list(range(c['ncb'])) * len(hist), 'callbacks ran as %r', order[:20])
    check(all(g == x for g, x in atcb), 'context lags behind the callbacks')
    check(cx['leap']['other'] == 7 and set(cx['leap']) == {'other', 'generation'}, 'context damaged')
    ctx.nt(len(hist) > 1 and c['ncb'] > 0)


@M.sub(case(start=st.integers(0, 50), ncb=st.integers(0, 3),
            steps=st.lists(st.one_of(st.just('inc'), st.just('dec'), st.just('read'), st.integers(0, 9), st.just(100)), max_size=30)),
       n=500, rule='increments by several amounts, and decrements, mixed')
def births(c, ctx):
    seen = [[] for _ in range(c['ncb'])]
    cx = {'leap': {'births': 77} if c['seed'] % 2 else {}}     # perhaps left by an earlier run
    inc = inc_births(context=cx, start=c['start'],
                     callbacks=[(lambda k: lambda b: seen[k].append(b))(k) for k in range(c['ncb'])])
    cur, hist = c['start'], []
    for s in [None] + c['steps']:
        if s == 'inc':
            cur += 1
            hist.append(cur)
            check(inc() == cur, 'increment returned the wrong count')
        elif s == 'dec':
            cur -= 1
            check(inc.do_decrement() == cur, 'decrement returned the wrong count')
        elif isinstance(s, int):
            cur += s
            hist.append(cur)
            check((inc(s) if s % 2 else inc.do_increment(s)) == cur, 'increment by %d returned the wrong count', s)
        check(inc.births() == cur and cx['leap']['births'] == cur, 'births drifted: %r, context %r, expected %r',
              inc.births(), cx['leap']['births'], cur)
    for k in range(c['ncb']):
        check(seen[k] == hist, 'callback %d saw %r, expected %r', k, seen[k], hist)
    ctx.nt('dec' in c['steps'] and any(isinstance(s, int) for s in c['steps']))


@M.sub(case(a=st.integers(0, 9), b=st.integers(0, 9), steps=st.lists(st.integers(0, 1), max_size=20)), n=200,
       rule='both counters stepped')
def independent(c, ctx):
    """Two counters over two contexts, and generation+births over one."""
    c1, c2 = {'leap': {}}, {'leap': {}}
    g1, g2 = inc_generation(c['a'], context=c1), inc_generation(c['b'], context=c2)
    b1 = inc_births(context=c1, start=c['b'])
    n = [c['a'], c['b'], c['b']]
    for s in c['steps']:
        (g1 if s else g2)()
        n[0 if s else 1] += 1
        if s:
            b1()
            n[2] += 1
        check([c1['leap']['generation'], c2['leap']['generation'], c1['leap']['births']] == n, 'counters interfere')
        check([g1.generation(), g2.generation(), b1.births()] == n, 'counters interfere')
    ctx.nt(len(set(c['steps'])) == 2)


@M.sub(case(gen=st.one_of(st.none(), st.integers(0, 99)), births=st.one_of(st.none(), st.integers(100, 199)),
            ug=st.sampled_from([None, True, False]), ub=st.sampled_from([None, True, False])), n=400,
       rule='always')
def step_lookup(c, ctx):
    cx = {'leap': {}}
    if c['gen'] is not None:
        cx['leap']['generation'] = c['gen']
    if c['births'] is not None:
        cx['leap']['births'] = c['births']
    ug, ub = c['ug'], c['ub']
    try:
        got = get_step(context=cx, use_generation=ug, use_births=ub)
        err = False
    except AssertionError:
        err = True
    hg, hb = c['gen'] is not None, c['births'] is not None
    if ug is None and ub is None:
        check(err == (hg == hb), 'context %r: error=%s', cx, err)
        if not err:
            check(got == (c['gen'] if hg else c['births']), 'context %r gave step %r', cx, got)
    elif ug and ub:
        check(err, 'both overrides accepted')
    elif ug and not ub:
        check(err == (not hg), 'use_generation on %r: error=%s', cx, err)
        check(err or got == c['gen'], 'wrong step')
    elif ub and not ug:
        check(err == (not hb), 'use_births on %r: error=%s', cx, err)
        check(err or got == c['births'], 'wrong step')
    ctx.nt()


@M.sub(case(calls=st.lists(st.tuples(st.sampled_from(['list', 'gen', 'pop', 'partial']),
                                     st.lists(st.integers(0, 12), max_size=6)).map(list), min_size=1, max_size=6)),
       n=600, rule='some individual is seen by two branding calls')
def brander(c, ctx):
    pool = pop_with([1.0] * 13)
    br = birth_brander()
    expect, nxt, seen = {}, 0, []
    for kind, idxs in c['calls']:
        batch = [pool[i] for i in idxs]
        if kind == 'pop':
            out = br.brand_population(batch)
            done = len(batch)
            check(isinstance(out, list), 'brand_population returned %r', type(out))
        elif kind == 'list':
            out = list(br(batch))
            done = len(batch)
        elif kind == 'gen':
            out = list(br(x for x in batch))
            done = len(batch)
        else:
            done = len(batch) // 2
            src = iter(batch)
            out = list(itertools.islice(br(src), done))
            check(len(list(src)) == len(batch) - done, 'branding drew individuals nobody asked for')
        check(same_list(out, batch[:done]), 'branding changed the stream')
        for i in idxs[:done]:
            if i not in expect:
                expect[i] = nxt
                nxt += 1
        seen += idxs[:done]
        for i, p in enumerate(pool):
            check(getattr(p, 'birth', None) == expect.get(i), 'individual %d has brand %r, expected %r',
                  i, getattr(p, 'birth', None), expect.get(i))
            check(p.fitness == 1.0, 'branding changed fitness')
    ctx.nt(len(seen) != len(set(seen)))


@M.sub(case(n=st.sampled_from([300, 1100, 3000]), route=st.sampled_from(['pop', 'iter', 'mixed'])), n=9, rule='always')
def long_brander(c, ctx):
    """Birth numbers never repeat, however many individuals are branded."""
    pool = pop_with([1.0] * c['n'])
    br = birth_brander()
    if c['route'] == 'iter':
        list(br(iter(pool)))
    elif c['route'] == 'pop':
        br.brand_population(pool)
    else:
        for k in range(0, c['n'], 50):
            (br.brand_population(pool[k:k + 50]) if k % 100 else list(br(iter(pool[k:k + 50]))))
    check([p.birth for p in pool] == list(range(c['n'])), 'brands of %d individuals', c['n'])
    ctx.nt()
