from common import *
import os
import shutil
import tempfile
from PIL import Image
from leap_ec.binary_rep.problems import DeceptiveTrap, ImageProblem, LeadingOnes, MaxOnes, TwoMax

M = Module('P27')
M.boost = 2

DT = ['int', 'bool', 'uint8', 'float']
bits = st.lists(st.integers(0, 1), min_size=1, max_size=40)


@st.composite
def strings(draw):
    x = draw(bits) if draw(st.integers(0, 9)) else np.random.RandomState(draw(seeds)).randint(0, 2, draw(st.sampled_from([101, 130, 260, 3001]))).tolist()
    rare = len(x) > 100
    if draw(bools):
        k = draw(st.integers(0, len(x)))
        x = [1] * k + x[k:]
    if draw(st.integers(0, 4)) == 0:
        x = [draw(st.integers(0, 1))] * len(x)
    if draw(st.integers(0, 3)) == 0:
        x[draw(st.integers(0, len(x) - 1))] ^= 1
    t = None
    if draw(bools):
        t = [b ^ draw(st.integers(0, 5).map(lambda v: v == 0)) for b in x] if not rare else [b ^ int(i > 0 and i % draw(st.sampled_from([7, 151, 2999])) == 0) for i, b in enumerate(x[:5])] + list(x[5:])
    return dict(x=x, t=t)


def ref(name, x, t):
    n, ones = len(x), sum(x)
    goal = t or [1] * n
    if name == 'max':
        return sum(1 for a, b in zip(x, goal) if a == b)
    if name == 'lead':
        k = 0
        while k < n and x[k] == goal[k]:
            k += 1
        return k
    if name == 'trap':
        return n if ones == n else n - 1 - ones
    return max(ones, n - ones)


def make(name, t, dt='int', **kw):
    if name == 'max':
        return MaxOnes(target_string=None if t is None else np.array(t, dtype=dt), **kw)
    if name == 'lead':
        return LeadingOnes(target_string=None if t is None else np.array(t, dtype=dt), **kw)
    return DeceptiveTrap(**kw) if name == 'trap' else TwoMax(**kw)


@M.sub(case(s=strings(), name=st.sampled_from(['max', 'lead', 'trap', 'two']), dt=st.sampled_from(DT), tdt=st.sampled_from(DT), mx=st.sampled_from([None, True, False])),
       n=3000, shards=4, rule='both bit values occur')
def definition(c, ctx):
    x, t = c['s']['x'], [int(b) for b in c['s']['t']] if c['s']['t'] else None
    if c['name'] not in ('max', 'lead'):
        t = None
    p = make(c['name'], t, c['tdt'], **({} if c['mx'] is None else dict(maximize=c['mx'])))
    check(bool(p.maximize) == (c['mx'] is not False), '%s direction', c['name'])
    check(p.worse_than(1, 2) == (c['mx'] is not False), '%s comparison', c['name'])
    a = np.array(x, dtype=c['dt'])
    got = p.evaluate(a)
    want = ref(c['name'], x, t)
    check(np.ndim(got) == 0 and float(got) == want, '%s(%r, target %r) = %r, expected %d', c['name'], x, t, got, want)
    check(a.tolist() == x and a.dtype == np.array(x, dtype=c['dt']).dtype, 'phenome changed')
    check(float(p.evaluate(a)) == want, 'second evaluation differs')
    ctx.nt(0 < sum(x) < len(x))
    ctx.label(c['name'], True)
    ctx.label('with target', t is not None)
    if c['name'] in ('max', 'lead') and t is not None:
        check(raises((AssertionError, ValueError), p.evaluate, np.array(x + [1])), 'a longer phenome than the target was accepted')


@M.sub(case(n=st.integers(1, 9), t=st.integers(0, 511), use_t=bools), n=40, mult=4, shards=2, rule='more than two bits')
def exhaustive(c, ctx):
    """Every bit string of the length: values and the set of maximisers."""
    n = c['n']
    t = [(c['t'] >> i) & 1 for i in range(n)] if c['use_t'] else None
    for name in ('max', 'lead', 'trap', 'two'):
        p = make(name, t if name in ('max', 'lead') else None)
        goal = tuple(t if t and name in ('max', 'lead') else [1] * n)
        best = []
        for v in range(2 ** n):
            x = [(v >> i) & 1 for i in range(n)]
            got = float(p.evaluate(np.array(x)))
            check(got == ref(name, x, t if name in ('max', 'lead') else None), '%s(%r) = %r', name, x, got)
            if got == n:
                best.append(tuple(x))
            check(0 <= got <= n, '%s(%r) = %r outside 0..%d', name, x, got, n)
        want = {goal} | ({tuple([0] * n)} if name == 'two' else set())
        check(set(best) == want, '%s is maximal at %r', name, best)
    ctx.nt(n > 2)


@M.sub(case(w=upto(1, 7, 30, 200), h=upto(1, 7, 30, 200), pix=st.lists(bools, min_size=49, max_size=49), x=st.lists(bools, min_size=49, max_size=49), mode=st.sampled_from(['1', 'L', 'RGB']),
            dt=st.sampled_from(['int', 'bool', 'uint8']), mx=bools, same=bools), n=300, shards=3, rule='image of both colours, wider than high or higher than wide')
def image(c, ctx):
    w, h = c['w'], c['h']
    n = w * h
    rep = n // 49 + 1
    target = [bool(b) for b in (c['pix'] * rep)[:n]]
    x = target if c['same'] else (c['x'] * rep)[:n]
    d = tempfile.mkdtemp(prefix='p27_')
    try:
        img = Image.new('L', (w, h))
        img.putdata([255 if b else 0 for b in target])
        path = os.path.join(d, 'img.png')
        img.convert(c['mode']).save(path)
        p = ImageProblem(path, maximize=c['mx'], size=(w, h))
        a = np.array(x, dtype=c['dt'])
        got = p.evaluate(a)
        want = sum(1 for u, v in zip(x, target) if bool(u) == v)
        check(float(got) == want, 'image problem gives %r matching pixels, expected %d of %d', got, want, n)
        check(a.tolist() == np.array(x, dtype=c['dt']).tolist(), 'phenome changed')
        check(bool(p.maximize) == c['mx'], 'direction')
        check(raises((AssertionError, ValueError), p.evaluate, np.array(list(x) + [1], dtype=c['dt'])), 'wrong length accepted')
    finally:
        shutil.rmtree(d)
    ctx.nt(len(set(target)) == 2 and w != h)
