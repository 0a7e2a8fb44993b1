from common import *
from leap_ec.executable_rep import cgp
from leap_ec.executable_rep.cgp import (CGPDecoder, CGPWithParametersDecoder, FunctionPrimitive, NAND, NotX,
                                        cgp_mutate, cgp_genome_mutate, create_cgp_vector)

M = Module('P39')
M.assumptions = ['levels_back is at least 1 and known arities do not exceed max_arity.',
                 'Node functions are total, so evaluating an unused node never fails.']


def fn(k):
    """An argument-order and argument-count sensitive integer function."""
    def f(*a):
        s = 17 * k + 5 * len(a)
        for i, x in enumerate(a):
            s = s + (3 * i + k + 2) * x
        return s % 1009
    return f


def prims(spec):
    """(functions given to the decoder, (arity or None, plain function))."""
    out = []
    for k, ar in enumerate(spec):
        out.append((FunctionPrimitive(fn(k), ar) if ar >= 0 else fn(k), ar, fn(k)))
    return out


@st.composite
def layouts(draw, big=False):
    ni, no = draw(upto(1, 4, 12)), draw(upto(1, 4, 10, 14))
    layers, npl, arity = draw(upto(1, 5, 12)), draw(upto(1, 4, 9)), draw(upto(1, 3, 12))
    lb = draw(st.one_of(st.none(), st.integers(1, layers + 1)))
    spec = draw(st.lists(st.integers(-1, arity), min_size=1, max_size=draw(upto(4, 4, 13))))
    return dict(ni=ni, no=no, layers=layers, npl=npl, arity=arity, lb=lb, spec=spec)


def allowed(d):
    """Independent description of the valid values of each gene."""
    lb = d['layers'] if d['lb'] is None else d['lb']
    layer_of = [-1] * d['ni'] + [l for l in range(d['layers']) for _ in range(d['npl'])]
    res = []
    for l in range(d['layers']):
        src = [k for k, kl in enumerate(layer_of) if kl < l and l - kl <= lb]
        for _ in range(d['npl']):
            res.append(list(range(len(d['spec']))))
            res += [src] * d['arity']
    res += [list(range(len(layer_of)))] * d['no']
    return res


def genome_from(d, picks):
    al = allowed(d)
    # favour chains: late picks map to the latest sources
    return [a[p % len(a)] for a, p in zip(al, (picks * (len(al) // len(picks) + 1))[:len(al)])]


def reference(d, ps, genome, inputs, params=None, np_=0):
    vals = list(inputs)
    step = d['arity'] + 1
    for k in range(d['layers'] * d['npl']):
        g = genome[k * step:(k + 1) * step]
        _, ar, f = ps[g[0]]
        src = g[1:] if ar < 0 else g[1:1 + ar]
        args = [vals[s] for s in src]
        if params is not None:
            args += list(params[k * np_:(k + 1) * np_])
        vals.append(f(*args))
    return [vals[s] for s in genome[d['layers'] * d['npl'] * step:]]


def build(d, prune=True, np_=None, ps=None):
    ps = ps or prims(d['spec'])
    a = ([p[0] for p in ps], d['ni'], d['no'], d['layers'], d['npl'], d['arity'])
    if np_ is None:
        return ps, CGPDecoder(*a, prune=prune, levels_back=d['lb'])
    return ps, CGPWithParametersDecoder(*a, num_parameters_per_node=np_, prune=prune, levels_back=d['lb'])


picks = st.lists(st.integers(0, 10 ** 6), min_size=4, max_size=90)
ins = st.lists(st.lists(st.one_of(st.integers(-50, 50), st.integers(-500, 500).map(lambda i: i / 7)), min_size=12, max_size=12), min_size=1, max_size=4)


@M.sub(case(d=layouts(), p=picks, p2=picks, ins=ins, nd=bools), n=1500, shards=4, rule='at least two layers and an output not taken directly from an input')
def decode(c, ctx):
    d = c['d']
    g, g2 = genome_from(d, c['p']), genome_from(d, c['p2'])
    conv = (lambda x: np.array(x)) if c['nd'] else list
    ps, dec = build(d, True)
    _, plain = build(d, False)
    check(dec.num_genes() == len(allowed(d)), 'num_genes %r, expected %d', dec.num_genes(), len(allowed(d)))
    check(dec.num_cgp_nodes() == d['ni'] + d['layers'] * d['npl'] + d['no'], 'node count %r', dec.num_cgp_nodes())
    gg = conv(g)
    e, e2, q = dec.decode(gg), dec.decode(conv(g2)), plain.decode(conv(g))
    check(list(gg) == g, 'decoding changed the genome')
    for x in c['ins']:
        x = x[:d['ni']]
        want = reference(d, ps, g, x)
        for name, ex in (('pruned', e), ('unpruned', q)):
            got = ex(list(x))
            check(list(got) == want, '%s circuit gives %r, expected %r for input %r', name, got, want, x)
        check(list(e2(list(x))) == reference(d, ps, g2, x), 'a second circuit of the same decoder disagrees')
        # state from other inputs or circuits must not leak
        e([7] * d['ni'])
        check(list(e(list(x))) == want, 'outputs depend on earlier executions')
    check(e.num_inputs == d['ni'] and e.num_outputs == d['no'], 'declared %r inputs, %r outputs', e.num_inputs, e.num_outputs)
    step = d['arity'] + 1
    for k in range(d['layers'] * d['npl']):
        l, n = divmod(k, d['npl'])
        check(dec.get_primitive(gg, l, n) is dec.primitives[g[k * step]], 'primitive of node %d', k)
        check(list(dec.get_input_sources(gg, l, n)) == g[k * step + 1:(k + 1) * step], 'input sources of node %d', k)
    check(list(dec.get_output_sources(gg)) == g[d['layers'] * d['npl'] * step:], 'output sources')
    for wrong in (g + [0], g[:-1]):
        check(raises(AssertionError, dec.decode, conv(wrong)), 'a genome of length %d instead of %d was decoded', len(wrong), len(g))
    check(raises(AssertionError, e, [1] * (d['ni'] + 1)), 'a wrong number of inputs was accepted')
    outs = g[-d['no']:]
    ctx.nt(d['layers'] > 1 and max(outs) >= d['ni'])
    ctx.label('limited levels back', d['lb'] is not None and d['lb'] < d['layers'])
    ctx.label('unused node', True if len(set(outs)) < d['layers'] * d['npl'] else False)


@M.sub(case(d=layouts(), p=picks, ins=ins, k=upto(0, 3, 6), par=st.lists(st.one_of(st.integers(-9, 9), st.integers(-90, 90).map(lambda i: i / 7)), min_size=60, max_size=60)), n=900, shards=3, rule='at least one parameter per node and a used hidden node')
def with_parameters(c, ctx):
    d, k = c['d'], c['k']
    g = genome_from(d, c['p'])
    n = d['layers'] * d['npl'] * k
    par = (c['par'] * 12)[:n]
    keep = [repr(v) for v in par]
    ps, dec = build(d, True, k)
    _, plain = build(d, False, k)
    e, q = dec.decode([g, par]), plain.decode([np.array(g), np.array(par)])
    for x in c['ins']:
        x = x[:d['ni']]
        want = reference(d, ps, g, x, par, k)
        check(list(e(list(x))) == want and list(q(list(x))) == want, 'with parameters: %r / %r, expected %r', e(list(x)), q(list(x)), want)
    check([repr(v) for v in par] == keep, 'decoding or running changed the parameters')
    check(raises(AssertionError, dec.decode, [g, par + [1]]), 'a wrong number of parameters was accepted')
    check(raises(AssertionError, dec.decode, [g + [0], par]), 'a wrong circuit length was accepted')
    made = dec.initialize(lambda: ['p'])()
    check(len(made) == 2 and made[1] == ['p'], 'initialised genome %r', made)
    al = allowed(d)
    check(len(made[0]) == len(al) and all(int(v) in a for v, a in zip(made[0], al)), 'initialised circuit %r breaks the constraints', made[0])
    ctx.nt(k > 0 and max(g[-d['no']:]) >= d['ni'])


@M.sub(case(n=st.integers(1, 3), layers=st.integers(1, 3), npl=st.integers(1, 3), no=st.integers(1, 3), p=picks), n=300, shards=1, rule='at least two inputs')
def logic_primitives(c, ctx):
    d = dict(ni=c['n'], no=c['no'], layers=c['layers'], npl=c['npl'], arity=2, lb=None, spec=[2, 1])
    ps = [(NAND(), 2, lambda a, b: not (a and b)), (NotX(), 1, lambda a: not a)]
    _, dec = build(d, True, ps=ps)
    check(ps[0][0].arity == 2 and ps[1][0].arity == 1, 'arity')
    g = genome_from(d, c['p'])
    e = dec.decode(g)
    for m in range(2 ** c['n']):
        x = [bool(m >> i & 1) for i in range(c['n'])]
        want = reference(d, ps, g, x)
        got = e(x)
        check([bool(v) for v in got] == [bool(v) for v in want], 'inputs %r give %r, expected %r', x, got, want)
    ctx.nt(c['n'] > 1)


@M.sub(case(d=layouts(), p=picks, runs=st.integers(2, 4), prune=bools, params=bools), n=150, shards=1, rule='an output depends on a node')
def fresh_evaluation(c, ctx):
    """Primitives need not be pure: every execution evaluates each needed node again, once."""
    d = c['d']
    calls = []

    def impure(*a):
        calls.append(1)
        return [len(calls)]
    ps = [(impure, -1, impure)] * len(d['spec'])
    g = genome_from(d, c['p'])
    if c['params']:
        _, dec = build(d, c['prune'], 1, ps=ps)
        e = dec.decode([g, [0.5] * (d['layers'] * d['npl'])])
    else:
        _, dec = build(d, c['prune'], ps=ps)
        e = dec.decode(g)
    check(not calls, 'decoding executed a primitive')
    step = d['arity'] + 1
    need, todo = set(), [s for s in g[d['layers'] * d['npl'] * step:]]
    while todo:
        s = todo.pop()
        if s >= d['ni'] and s not in need:
            need.add(s)
            todo += g[(s - d['ni']) * step + 1:(s - d['ni'] + 1) * step]
    outs = []
    for r in range(c['runs']):
        n0 = len(calls)
        got = e([0] * d['ni'])
        n = len(calls) - n0
        check(n == len(need) if c['prune'] else len(need) <= n <= d['layers'] * d['npl'], '%d node evaluations in one execution, %d nodes are needed', n, len(need))
        for s, v in zip(g[d['layers'] * d['npl'] * step:], got):
            check((v == 0) if s < d['ni'] else n0 < v[0] <= len(calls), 'output %r does not come from this execution', v)
        outs.append(got)
    ctx.nt(bool(need))


@M.sub(case(d=layouts(), p=picks, at=st.integers(0, 10 ** 6), off=st.integers(-3, 8), kind=st.sampled_from(['value', 'value', 'length', 'float', 'none']), form=st.sampled_from(['int64', 'int64', 'int32', 'int16', 'list'])), n=1200, shards=3, rule='the perturbed genome is invalid')
def constraints(c, ctx):
    d = c['d']
    _, dec = build(d)
    al = allowed(d)
    b = dec.bounds()
    check(len(b) == len(al), '%d bounds for %d genes', len(b), len(al))
    for j, ((lo, hi), a) in enumerate(zip(b, al)):
        check(list(range(lo, hi + 1)) == a, 'gene %d bounds %r, valid values %r', j, (lo, hi), a)
    g = genome_from(d, c['p'])
    j = c['at'] % len(g)
    if c['kind'] == 'value':
        g[j] = (al[j][0] if c['off'] < 0 else al[j][-1]) + c['off']
    elif c['kind'] == 'length':
        g = g + [0] if c['off'] % 2 else g[:-1]
    gg = list(g) if c['form'] == 'list' else np.array(g, dtype=c['form'])
    if c['kind'] == 'float':
        gg = np.array(g)
    if c['kind'] == 'float':
        gg = gg.astype(float)
    valid = c['kind'] != 'float' and len(g) == len(al) and all(v in a for v, a in zip(g, al))
    ind = Individual(gg)
    ind.fitness = 3.0
    src = iter([ind])
    try:
        out = next(dec.check_constraints(src))
        ok = True
    except ValueError:
        ok = False
    check(ok == valid, 'genome %r is %s but was %s', g, 'valid' if valid else 'invalid', 'accepted' if ok else 'rejected')
    if ok:
        check(out is ind and ind.fitness == 3.0 and list(ind.genome) == g, 'checking changed the individual')
    ctx.nt(not valid)
    ctx.label('valid', valid)


@M.sub(case(d=layouts(), mode=st.sampled_from(['prob', 'expected']), x=st.integers(0, 10), route=st.sampled_from(['iter', 'genome']), n=st.integers(1, 6)), n=700, shards=3, rule='some gene changed')
def init_and_mutate(c, ctx):
    d = c['d']
    _, dec = build(d)
    al = allowed(d)
    L = len(al)
    kw = dict(probability=c['x'] / 10) if c['mode'] == 'prob' else dict(expected_num_mutations=c['x'] / 10 * L)
    gs = [create_cgp_vector(dec)() if k % 2 else dec.initializer()() for k in range(c['n'])]
    for g in gs:
        check(len(g) == L and all(int(v) == v and int(v) in a for v, a in zip(g, al)), 'initialised genome %r breaks the constraints', g)
    before = [[int(v) for v in g] for g in gs]
    if c['route'] == 'iter':
        pop = [Individual(np.array(g)) for g in before]
        for i in pop:
            i.fitness = 1.0
        it = iter(pop)
        op = cgp_mutate(dec, **kw)
        out = op(it)
        res = []
        for i in pop:
            o = next(out)
            check(o is i and o.fitness is None, 'mutation must return the individual with its fitness unset')
            res.append(o.genome)
    else:
        mut = cgp_genome_mutate(dec, **kw)
        res = [mut(np.array(g)) for g in before]
    changed = 0
    for b, r in zip(before, res):
        check(len(r) == L, 'mutated genome has length %d, expected %d', len(r), L)
        for j, (v, a) in enumerate(zip(r, al)):
            check(int(v) == v and int(v) in a, 'gene %d mutated to %r, valid values %r', j, v, a)
        changed += [int(v) for v in r] != b
        if c['x'] == 0:
            check([int(v) for v in r] == b, 'a mutation happened at probability 0')
    ctx.nt(changed > 0)


@M.sub(case(d=layouts(), what=st.sampled_from(['init', 'mutate', 'genome'])), n=60, shards=3, mult=8, rule='some gene has at least three valid values')
def reachability(c, ctx):
    """Every valid value of every gene is produced, about equally often."""
    d = c['d']
    _, dec = build(d)
    al = allowed(d)
    n = 600
    start = [a[0] for a in al]
    if c['what'] == 'init':
        f = dec.initializer()
    elif c['what'] == 'genome':
        m = cgp_genome_mutate(dec, probability=1.0)
        f = lambda: m(np.array(start))
    else:
        op = cgp_mutate(dec, probability=1.0)
        f = lambda: next(op(iter([Individual(np.array(start))]))).genome
    rows = np.array([f() for _ in range(n)])
    for j, a in enumerate(al):
        for v in a:
            check_binom(int(np.sum(rows[:, j] == v)), n, 1 / len(a), 'gene %d value %d (%s)' % (j, v, c['what']))
    ctx.nt(max(len(a) for a in al) > 2)
