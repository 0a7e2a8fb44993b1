from common import *
import matplotlib
matplotlib.use('Agg')
from matplotlib import pyplot as plt
from leap_ec.executable_rep.neural_network import (SimpleNeuralNetworkDecoder, SimpleNeuralNetworkExecutable,
                                                   GraphPhenotypeProbe, sigmoid, relu, softmax)

M = Module('P40')
M.assumptions = ['Weights have magnitude at most 100; outputs are compared within 1e-9 or 30 times the effect of perturbing the weights by 1e-12.']


def r_sigmoid(v):
    return [1 / (1 + math.exp(-x)) if x >= 0 else math.exp(x) / (1 + math.exp(x)) for x in v]


def r_relu(v):
    return [x if x > 0 else 0.0 for x in v]


def r_softmax(v):
    m = max(v)
    e = [math.exp(x - m) for x in v]
    s = sum(e)
    return [x / s for x in e]


def r_ident(v):
    return list(v)


ACT = {'sigmoid': (sigmoid, r_sigmoid), 'relu': (relu, r_relu), 'softmax': (softmax, r_softmax),
       'custom': (lambda x: 2 * x - 1, lambda v: [2 * x - 1 for x in v])}
weight = st.one_of(st.integers(-24, 24).map(lambda i: i / 7), st.integers(-24, 24).map(lambda i: i / 8), st.integers(-800, 800).map(lambda i: i / 8))


@st.composite
def nets(draw):
    raw = [draw(upto(1, 4, 11))] + draw(st.lists(upto(0, 4, 11), max_size=draw(upto(3, 3, 7)))) + [draw(upto(1, 4, 11))]
    if draw(st.integers(0, 9)) == 0:
        raw = [0] + raw
    if draw(st.integers(0, 9)) == 0:
        raw = raw + [0]
    shape = [x for x in raw if x]
    L = sum((a + 1) * b for a, b in zip(shape, shape[1:]))
    ws = draw(st.lists(weight, min_size=L, max_size=L)) if L < 100 else (draw(st.lists(weight, min_size=31, max_size=31)) * (L // 31 + 1))[:L]
    return dict(raw=raw, ws=ws)


def forward(shape, ws, x, act):
    sig, at = [float(v) for v in x], 0
    for a, b in zip(shape, shape[1:]):
        vec = sig + [1.0]
        new = [sum(vec[r] * ws[at + r * b + k] for r in range(a + 1)) for k in range(b)]
        at += (a + 1) * b
        sig = act(new)
    return sig


@M.sub(case(net=nets(), act=st.sampled_from(sorted(ACT) + ['default']), xs=st.lists(st.lists(st.one_of(weight, weight.map(lambda v: v / 7)), min_size=11, max_size=11), min_size=1, max_size=3), nd=bools, f32=st.integers(0, 3)), n=1500, shards=4, rule='at least one hidden layer')
def forward_pass(c, ctx):
    raw, ws = c['net']['raw'], c['net']['ws']
    shape = [x for x in raw if x]
    f, ref = ACT['sigmoid' if c['act'] == 'default' else c['act']]
    dec = SimpleNeuralNetworkDecoder(tuple(raw)) if c['act'] == 'default' else SimpleNeuralNetworkDecoder(tuple(raw), activation=f)
    check(dec.length == len(ws), 'decoder length %r, expected %d', dec.length, len(ws))
    check([tuple(int(v) for v in t) for t in dec.dimensions] == [(a + 1, b) for a, b in zip(shape, shape[1:])], 'dimensions %r', dec.dimensions)
    g = np.array(ws) if c['nd'] else list(ws)
    nn = dec.decode(g)
    check(list(g) == list(ws), 'decoding changed the genome')
    check(nn.num_inputs == shape[0] and nn.num_outputs == shape[-1] and nn.num_hidden_layers == len(shape) - 2, 'sizes %r %r %r', nn.num_inputs, nn.num_outputs, nn.num_hidden_layers)
    wants = []
    for x in c['xs']:
        x = x[:shape[0]]
        if c['f32'] == 0:
            x = [float(np.float32(v)) for v in x]
        want = forward(shape, ws, x, ref)
        # how far rounding could carry the result: a perturbed reference
        want2 = forward(shape, [w * (1 + (1e-12 if k % 3 else -1e-12)) for k, w in enumerate(ws)], x, ref)
        tols = [max(1e-9, 1e-9 * abs(a), 30 * abs(a - b)) for a, b in zip(want, want2)]
        wants.append((want, tols))
        got = nn(np.array(x, dtype=np.float32)) if c['f32'] == 0 else nn(np.array(x)) if c['nd'] else nn(list(x))
        check(len(got) == len(want), '%d outputs, expected %d', len(got), len(want))
        for a, b, t in zip(got, want, tols):
            check(abs(a - b) <= t, 'outputs %r, expected %r', list(got), want)
    # repeated execution is stateless
    for x, (want, tols) in zip(reversed(c['xs']), reversed(wants)):
        got = nn([float(np.float32(v)) for v in x[:shape[0]]] if c['f32'] == 0 else x[:shape[0]])
        check(all(abs(a - b) <= t for a, b, t in zip(got, want, tols)), 'outputs depend on earlier executions')
    for wrong in (ws + [0.0], ws[:-1]):
        check(raises(ValueError, dec.decode, wrong), 'a genome of length %d instead of %d was decoded', len(wrong), len(ws))
    ctx.nt(len(shape) > 2)
    ctx.label('zero-size layer ignored', 0 in raw)


@M.sub(case(v=st.lists(st.one_of(weight, st.integers(-3000, 3000), st.sampled_from([0, 0.0, -750.5, 750.5, 1e6, -1e6])), min_size=1, max_size=6), nd=bools, sh=st.integers(-10 ** 4, 10 ** 4)), n=1200, shards=1, rule='a value large enough to overflow a naive exponential')
def activations(c, ctx):
    v = [float(x) for x in c['v']]
    a = np.array(v)
    for name in ('sigmoid', 'relu', 'softmax'):
        f, ref = ACT[name]
        with np.errstate(over='raise', invalid='raise'):
            got = f(a)
        want = ref(v)
        check(np.shape(got) == (len(v),), '%s shape %r', name, np.shape(got))
        for x, y in zip(got, want):
            check(close(x, y, 1e-8, 1e-200), '%s(%r) = %r, expected %r', name, v, list(got), want)
        check(a.tolist() == v, '%s changed its input', name)
    check(close(float(np.sum(softmax(a))), 1.0, 1e-9), 'softmax sums to %r', np.sum(softmax(a)))
    s = softmax(a + c['sh'])
    check(all(close(x, y, 1e-6, 1e-9) for x, y in zip(s, softmax(a))), 'softmax is not translation invariant')
    check(close(sigmoid(v[0]), r_sigmoid([v[0]])[0], 1e-9, 1e-12) and float(relu(v[0])) == max(v[0], 0.0), 'scalar input')
    ctx.nt(max(abs(x) for x in v) > 710)


@M.sub(case(net=nets(), scale=st.integers(1, 3)), n=500, shards=2, rule='at least one hidden layer')
def graph_view(c, ctx):
    raw, ws = c['net']['raw'], c['net']['ws']
    shape = [x for x in raw if x]
    nn = SimpleNeuralNetworkDecoder(tuple(raw)).decode(np.array(ws))
    g = nn.graph
    names = [['i%d' % k for k in range(shape[0])]]
    for l, n in enumerate(shape[1:-1]):
        names.append(['h%d_%d' % (l, k) for k in range(n)])
    names.append(['o%d' % k for k in range(shape[-1])])
    check(set(g.nodes) == {'bias'} | set(sum(names, [])), 'nodes %r', list(g.nodes))
    want, at = [], 0
    for prev, cur in zip(names, names[1:]):
        for r, s in enumerate(prev + ['bias']):
            for k, t in enumerate(cur):
                want.append((s, t, ws[at + r * len(cur) + k]))
        at += (len(prev) + 1) * len(cur)
    got = sorted((s, t, float(w)) for s, t, w in g.edges(data='weight'))
    check(got == sorted(want), 'edges %r, expected %r', got, sorted(want))
    ctx.nt(len(shape) > 2)


@M.sub(case(ws=st.lists(weight, min_size=24, max_size=24), fits=st.one_of(st.lists(tied, min_size=1, max_size=4), st.lists(tied, min_size=1, max_size=4), st.lists(tied, min_size=25, max_size=30)), mx=bools, modulo=st.integers(1, 3), gens=st.lists(st.integers(0, 7), min_size=1, max_size=3), weights=bools, times=st.sampled_from([None, 1.0, 2.0, 0.25])), n=40, mult=5, shards=4, rule='a generation that is drawn and one that is skipped')
def graph_probe(c, ctx):
    """The probe draws the best individual's graph on multiples of modulo."""
    cx = {'leap': {'generation': 0}}
    fig, ax = plt.subplots()
    try:
        p = GraphPhenotypeProbe(modulo=c['modulo'], ax=ax, weights=c['weights'], context=cx, **({} if c['times'] is None else {'weight_multiplier': c['times']}))
        prob = FunctionProblem(lambda x: 0.0, c['mx'])
        pop = []
        for k, f in enumerate(c['fits']):
            shape = (1 + k % 2, 1 + k // 2 % 3, 1)
            d = SimpleNeuralNetworkDecoder(shape)
            i = Individual(np.abs(np.array((c['ws'] * 2)[k:k + d.length])), decoder=d, problem=prob)
            i.fitness = f
            pop.append(i)
        keep, before = list(pop), [snap(i) for i in pop]
        shown = None
        drawn = skipped = 0
        for g in c['gens']:
            cx['leap']['generation'] = g
            out = p(pop)
            check(out is pop and same_list(pop, keep) and [snap(i) for i in pop] == before, 'the probe changed the population')
            if g % c['modulo'] == 0:
                drawn += 1
                bf = (max if c['mx'] else min)(c['fits'])
                shown = [sorted(i.decode().graph.nodes) for i in pop if i.fitness == bf]
                widths = [sorted((c['times'] or 1.0) * float(w) for _, _, w in i.decode().graph.edges(data='weight')) for i in pop if i.fitness == bf]
            else:
                skipped += 1
            labels = sorted(t.get_text() for t in ax.texts)
            if shown is None:
                check(labels == [], 'drew at generation %d with modulo %d', g, c['modulo'])
            else:
                check(labels in shown, 'drawn nodes %r, best individual has %r', labels, shown)
                if c['weights']:
                    w = sorted(float(a.get_linewidth()) for a in ax.patches)
                    check(any(len(w) == len(v) and all(close(a, b) for a, b in zip(w, v)) for v in widths), 'edges drawn %r wide, best individual has %r', w, widths)
        ctx.nt(drawn and skipped)
    finally:
        plt.close(fig)
