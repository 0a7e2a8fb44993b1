from common import *
from leap_ec.binary_rep.decoders import (BinaryToIntDecoder, BinaryToIntGreyDecoder,
                                         BinaryToRealDecoder, BinaryToRealGreyDecoder)
from leap_ec.representation import Representation

M = Module('P14')
M.assumptions = ['Segment widths up to 60 bits (int64 arithmetic); bounds are multiples of 1/8.']


def ref_int(bits):
    v = 0
    for b in bits:
        v = 2 * v + int(b)
    return v


def ref_gray(bits):
    """Reflected Gray code: binary digit i is the parity of the first i+1 bits."""
    v, parity = 0, 0
    for b in bits:
        parity ^= int(b)
        v = 2 * v + parity
    return v


def split(bits, widths):
    out, k = [], 0
    for w in widths:
        out.append(bits[k:k + w])
        k += w
    return out


def mk(bits, dt):
    return np.array(bits, dtype={'int': int, 'bool': bool, 'i8': np.int8, 'u8': np.uint8}[dt])


widths = st.one_of(st.lists(st.integers(1, 8), min_size=1, max_size=6),
                   st.lists(st.integers(1, 24), min_size=1, max_size=4),
                   st.lists(st.integers(20, 60), min_size=1, max_size=2),
                   st.tuples(st.integers(1, 12), st.sampled_from([30, 70, 150])).map(lambda t: [1 + (i * t[0]) % 13 for i in range(t[1])]))
bound = st.tuples(eighths, st.one_of(st.integers(0, 1600), st.integers(0, 1600), st.integers(-1600, 1600)).map(lambda i: i / 8)).map(lambda t: (t[0], t[0] + t[1]))


@st.composite
def layouts(draw):
    w = draw(widths)
    n = sum(w)
    gs = draw(st.lists(st.one_of(
        st.lists(st.integers(0, 1), min_size=n, max_size=n) if n <= 120 else st.integers(0, 2 ** 31 - 1).map(lambda s: np.random.RandomState(s).randint(0, 2, n).tolist()),
        st.sampled_from([[0] * n, [1] * n])), min_size=1, max_size=4))
    return {'w': w, 'genomes': gs, 'b': [draw(bound) for _ in w],
            'dt': draw(st.sampled_from(['int', 'bool', 'i8', 'u8'])),
            'order': draw(st.lists(st.integers(0, len(gs) - 1), min_size=1, max_size=8)),
            'intb': draw(bools), 'seed': draw(seeds)}


@M.sub(layouts(), n=1200, shards=2, rule='at least two segments, or a segment of at least 2 bits with a non-constant string')
def values(c, ctx):
    ws = c['w']
    bounds = [(math.floor(l), math.ceil(h)) if c['intb'] else (l, h) for l, h in c['b']]
    ints = {False: BinaryToIntDecoder(*ws), True: BinaryToIntGreyDecoder(*ws)}
    reals = {False: BinaryToRealDecoder(*[(w, l, h) for w, (l, h) in zip(ws, bounds)]),
             True: BinaryToRealGreyDecoder(*[(w, l, h) for w, (l, h) in zip(ws, bounds)])}
    for k in c['order']:
        bits = c['genomes'][k]
        segs = split(bits, ws)
        for gray, f in ((False, ref_int), (True, ref_gray)):
            g = mk(bits, c['dt'])
            before = g.copy()
            want = [f(s) for s in segs]
            got = ints[gray].decode(g)
            check(len(got) == len(ws) and [int(x) for x in got] == want,
                  '%s decode of %r widths %r: %r, expected %r',
                  'gray' if gray else 'binary', bits, ws, got, want)
            rv = reals[gray].decode(g)
            check(len(rv) == len(ws), 'real decode returned %d values', len(rv))
            for x, v, w, (l, h) in zip(rv, want, ws, bounds):
                e = l + (h - l) * (v / (2 ** w - 1))
                check(abs(float(x) - e) <= 1e-9 * max(1.0, abs(l), abs(h)),
                      'real decode of %d (%d bits in [%g,%g]) gave %r, expected %r', v, w, l, h, x, e)
                check(min(l, h) - 1e-9 * max(1, abs(l), abs(h)) <= float(x) <= max(l, h) + 1e-9 * max(1, abs(l), abs(h)),
                      'real decode out of bounds')
            check(g.dtype == before.dtype and (g == before).all(), 'decode modified the genome')
    ctx.nt(len(ws) > 1 or (ws[0] > 1 and len({tuple(x) for x in c['genomes']}) > 0))
    ctx.label('mixed widths', len(set(ws)) > 1)
    ctx.label('repeat decoding', len(c['order']) > 1)
    ctx.label(c['dt'])


@M.sub(case(w=st.integers(1, 10), gray=bools, extra=st.integers(0, 5)), n=20, mult=3,
       rule='width of at least 2 (all 2^w strings of the segment are decoded)')
def bijection(c, ctx):
    w = c['w']
    D = BinaryToIntGreyDecoder if c['gray'] else BinaryToIntDecoder
    d = D(w, c['extra']) if c['extra'] else D(w)
    seen = {}
    for v in range(2 ** w):
        bits = [(v >> (w - 1 - i)) & 1 for i in range(w)]
        got = int(d.decode(mk(bits + [1] * c['extra'], 'int'))[0])
        check(0 <= got < 2 ** w, 'value %d outside %d bits', got, w)
        check(got not in seen, 'two strings decode to %d', got)
        seen[got] = bits
    if c['gray']:
        for v in range(2 ** w - 1):
            dist = sum(a != b for a, b in zip(seen[v], seen[v + 1]))
            check(dist == 1, 'gray neighbours %d and %d differ in %d bits', v, v + 1, dist)
    else:
        for v in seen:
            check(ref_int(seen[v]) == v, 'value %d', v)
    ctx.nt(w > 1)


@M.sub(case(genome=st.lists(st.integers(0, 1), min_size=4, max_size=4),
            bad=st.sampled_from([(4, 0.0), (4,), (4, 0.0, 1.0, 2.0)]), gray=bools), n=80,
       rule='always (malformed input)')
def malformed(c, ctx):
    D = BinaryToIntGreyDecoder if c['gray'] else BinaryToIntDecoder
    R = BinaryToRealGreyDecoder if c['gray'] else BinaryToRealDecoder
    check(raises(ValueError, lambda: D(4).decode(list(c['genome']))), 'list genome accepted')
    check(raises(ValueError, lambda: R((4, 0.0, 1.0)).decode(list(c['genome']))), 'list genome accepted')
    check(raises(ValueError, lambda: R((4, 0.0, 1.0), tuple(c['bad']))), 'segment %r accepted', c['bad'])
    ctx.nt()


@M.sub(layouts(), n=300, rule='the individual is decoded again after its genome changed')
def through_individual(c, ctx):
    ws = c['w']
    dec = BinaryToIntGreyDecoder(*ws) if c['intb'] else BinaryToIntDecoder(*ws)
    f = ref_gray if c['intb'] else ref_int
    ind = Individual(mk(c['genomes'][0], c['dt']), decoder=dec,
                     problem=FunctionProblem(lambda p: float(sum(float(x) for x in p)), True))
    for k in c['order']:
        bits = c['genomes'][k]
        ind.genome = mk(bits, c['dt'])
        want = [f(s) for s in split(bits, ws)]
        check([int(x) for x in ind.decode()] == want, 'decode through the individual: %r expected %r',
              ind.decode(), want)
        ind.evaluate()
        check(close(ind.fitness, float(sum(want))), 'fitness %r from phenome %r', ind.fitness, want)
    ctx.nt(len(set(c['order'])) > 1)
