from common import *
import matplotlib
matplotlib.use('Agg')
from matplotlib import pyplot as plt
from gymnasium import spaces
import logging
from leap_ec.executable_rep.rules import PittRulesDecoder, PittRulesExecutable, PlotPittRuleProbe, Rule

logging.disable(logging.CRITICAL)
M = Module('P41')
M.assumptions = ['Condition and input values are multiples of 1/8 (the first input also of 2^-26), so squared distances are exact and ties are real ties.']
ORDER = PittRulesExecutable.PriorityMetric.RULE_ORDER
val = st.integers(-16, 16).map(lambda i: i / 8)


@st.composite
def systems(draw, mind=1, nacts=1):
    dims = draw(upto(mind, 4, 8))
    n = draw(upto(1, 6, 13, 25))
    rules = []
    for _ in range(n):
        conds = [[draw(val), draw(val)] for _ in range(dims)]
        for q in conds:
            if draw(st.integers(0, 2)):
                q.sort()
        rules.append(dict(c=conds, a=[draw(st.integers(0, 5)) for _ in range(nacts)]))
    if draw(st.integers(0, 3)) == 0:            # minute differences in the first input
        for r in rules:
            r['c'][0] = [v + draw(st.integers(-3, 3)) * 2.0 ** -26 for v in r['c'][0]]
    if n > 1 and draw(bools):
        rules[-1]['c'] = rules[0]['c']          # overlapping rules
    return rules


def dist(rule, x):
    s = 0.0
    for (lo, hi), v in zip(rule['c'], x):
        if lo > hi or lo <= v <= hi:
            continue
        s += min((v - lo) ** 2, (v - hi) ** 2)
    return s


def box(dims, flat=True, lo=-2.0, hi=2.0):
    return spaces.Box(low=lo, high=hi, shape=(dims,) if flat else (1, dims), dtype=np.float32)


def genome(rules, noise=0.0):
    return [[v for q in r['c'] for v in q] + [a + noise for a in r['a']] for r in rules]


@M.sub(case(r=st.one_of(systems(), systems(nacts=2)), mag=st.sampled_from([1.0, 1.0, 1.0, 1024.0, 2.0 ** 20]), eps=st.integers(-3, 3), abig=st.sampled_from([1, 1, 1, 60]), xs=st.lists(st.lists(val, min_size=8, max_size=8), min_size=1, max_size=5), nd=bools, flat=bools, noise=st.sampled_from([0.0, 0.0, 0.25, -0.25])), n=2000, shards=4, rule='several rules match exactly, or none does')
def fires(c, ctx):
    r = [dict(c=[[v * c['mag'] for v in q] for q in x['c']], a=[a * c['abig'] for a in x['a']]) for x in c['r']]
    dims, acts = len(r[0]['c']), len(r[0]['a'])
    na = 6 * c['abig']
    out = spaces.Discrete(na) if acts == 1 else spaces.MultiDiscrete([na, na])
    dec = PittRulesDecoder(box(dims, c['flat']), out)
    check(dec.num_inputs == dims and dec.num_outputs == acts and dec.num_genes_per_rule == 2 * dims + acts, 'declared sizes %r %r %r', dec.num_inputs, dec.num_outputs, dec.num_genes_per_rule)
    g = genome(r, c['noise'])
    g = np.array(g) if c['nd'] else g
    before = copy.deepcopy(g)
    rs = dec.genome_to_rules(g)
    check([[list(map(float, q)) for q in x.conditions] for x in rs] == [x['c'] for x in r], 'rule conditions %r', rs)
    check([[float(a) for a in x.actions] for x in rs] == [[a + c['noise'] for a in x['a']] for x in r], 'rule actions %r', rs)
    e = dec.decode(g)
    check(genome_value(g) == genome_value(before), 'decoding changed the genome')
    nt = False
    for x in c['xs']:
        x = [v * c['mag'] for v in x[:dims]]
        if c['mag'] == 1:
            x[0] += c['eps'] * 2.0 ** -26
        d = [dist(q, x) for q in r]
        got = e(np.array(x) if c['nd'] else list(x))
        got = [got] if acts == 1 else list(got)
        exact = [k for k, v in enumerate(d) if v == 0]
        if exact:
            want = [r[exact[0]]['a']]
        else:
            want = [r[k]['a'] for k, v in enumerate(d) if v == min(d)]
        check([int(v) for v in got] in want, 'input %r fires action %r, expected one of %r (distances %r)', x, got, want, d)
        nt = nt or len(exact) > 1 or not exact
        ctx.label('partial match', not exact)
        ctx.label('two exact matches', len(exact) > 1)
    ctx.nt(nt)
    bad = [list(s) for s in before]
    bad[-1] = bad[-1] + [0]
    check(raises(AssertionError, dec.decode, bad), 'a rule with too many genes was decoded')


@M.sub(case(k=st.integers(1, 4), far=st.integers(0, 2), v=val), n=60, shards=2, mult=10, rule='at least two equally near rules')
def partial_ties(c, ctx):
    """Among equally near partial matches every rule can win."""
    k = c['k']
    rules = [dict(c=[[c['v'] + 1, c['v'] + 2]], a=[j]) for j in range(k)] + [dict(c=[[c['v'] + 3, c['v'] + 4]], a=[5]) for _ in range(c['far'])]
    e = PittRulesDecoder(spaces.Box(low=-10., high=10., shape=(1,), dtype=np.float32), spaces.Discrete(6)).decode(genome(rules))
    n = 300
    seen = [int(e([c['v']])) for _ in range(n)]
    check(set(seen) == set(range(k)), 'winners %r, expected the rules %r', sorted(set(seen)), list(range(k)))
    ctx.nt(k > 1)


@M.sub(case(bounds=st.lists(st.tuples(st.integers(-40, 40), st.integers(1, 40)), min_size=1, max_size=5), rows=st.integers(1, 2), n=upto(1, 5, 60), acts=upto(1, 6, 300)), n=500, shards=2, rule='at least two inputs with different bounds')
def shapes(c, ctx):
    b = [(lo / 8, (lo + w) / 8) for lo, w in c['bounds']] * c['rows']
    shape = (c['rows'], len(c['bounds']))
    low = np.array([x[0] for x in b], dtype=np.float32).reshape(shape)
    high = np.array([x[1] for x in b], dtype=np.float32).reshape(shape)
    space = spaces.Box(low=low, high=high, dtype=np.float32)
    space.seed(c['seed'] % 1000)
    out = spaces.Discrete(c['acts'])
    dec = PittRulesDecoder(space, out)
    want = [q for q in b for _ in (0, 1)]
    check([tuple(map(float, q)) for q in dec.condition_bounds] == want, 'condition bounds %r, expected %r', dec.condition_bounds, want)
    check([tuple(map(int, q)) for q in dec.action_bounds] == [(0, c['acts'] - 1)], 'action bounds %r', dec.action_bounds)
    bs = dec.bounds(c['n'])
    check(len(bs) == c['n'], 'bounds for %d rules, expected %d', len(bs), c['n'])
    for q in bs:
        check([tuple(map(float, z)) for z in q] == want + [(0.0, c['acts'] - 1.0)], 'rule bounds %r', q)
    init = dec.initializer(c['n'])
    prev = None
    for _ in range(3):
        g = init()
        check(len(g) == c['n'], '%d rules initialised, expected %d', len(g), c['n'])
        for seg in g:
            check(len(seg) == dec.num_genes_per_rule == len(want) + 1, 'a rule has %d genes', len(seg))
            for v, (lo, hi) in zip(seg, want + [(0, c['acts'] - 1)]):
                check(lo <= v <= hi, 'initial gene %r outside %r', v, (lo, hi))
            check(float(seg[-1]) == int(seg[-1]), 'initial action %r', seg[-1])
        cur = genome_value(g)
        check(cur != prev, 'two initialised genomes are identical')
        prev = cur
        dec.decode(g)(space.sample().flatten())
    if c['n'] * len(b) >= 10:
        lows, highs, acts = [], [], []
        while len(lows) < 300:
            for seg in init():
                for j, (lo, hi) in enumerate(b):
                    lows.append((seg[2 * j] - lo) / (hi - lo))
                    highs.append((seg[2 * j + 1] - lo) / (hi - lo))
                acts.append(int(seg[-1]))
        check_binom(sum(v < 0.5 for v in lows), len(lows), 0.5, 'lower condition genes in the lower half of their range')
        check_binom(sum(v < 0.5 for v in highs), len(highs), 0.5, 'upper condition genes in the lower half of their range')
        check_binom(sum(v == 0 for v in acts), len(acts), 1 / c['acts'], 'initial action 0')
    ctx.nt(len(set(b)) > 1)


@M.sub(case(r=systems(), nd=bools, n=upto(1, 4, 11), add=upto(1, 9, 10 ** 7)), n=400, shards=2, rule='at least two rules')
def mutator(c, ctx):
    r = c['r']
    dims = len(r[0]['c'])
    dec = PittRulesDecoder(box(dims), spaces.Discrete(6))
    calls = []

    def cm(genes):
        calls.append(('c', [float(v) for v in genes]))
        return [v + c['add'] for v in genes]

    def am(genes):
        calls.append(('a', [float(v) for v in genes]))
        return [v + 100 * c['add'] for v in genes]
    g = genome(r)
    pop = []
    for k in range(c['n']):
        q = [[v + k for v in s] for s in g]
        i = Individual(np.array(q) if c['nd'] else [np.array(s) for s in q])
        i.fitness = 1.0
        pop.append(i)
    op = dec.mutator(condition_mutator=cm, action_mutator=am)
    it = op(iter(pop))
    for k, i in enumerate(pop):
        o = next(it)
        check(o is i and o.fitness is None, 'mutation must return the individual with its fitness unset')
        check(isinstance(o.genome, np.ndarray if c['nd'] else list), 'genome became a %s', type(o.genome).__name__)
        want = [[(v + k) + c['add'] for v in s[:-1]] + [(s[-1] + k) + 100 * c['add']] for s in g]
        check([[float(v) for v in s] for s in o.genome] == want, 'mutated genome %r, expected %r', o.genome, want)
    want_calls = []
    for k in range(c['n']):
        for s in g:
            want_calls += [('c', [v + k for v in s[:-1]]), ('a', [float(s[-1] + k)])]
    check(sorted(calls) == sorted(want_calls), 'mutators were called with %r', calls)
    ctx.nt(len(r) > 1)


@M.sub(case(rs=st.lists(systems(2), min_size=1, max_size=3), fits=st.lists(tied, min_size=3, max_size=3, unique=True), gens=st.lists(st.integers(0, 5), min_size=1, max_size=3), modulo=st.integers(1, 3), dims=st.sampled_from([None, (0, 1), (1, 0)]), noise=st.sampled_from([0.0, 0.25, -0.25])), n=60, shards=4, mult=5, rule='a wildcard condition, or generations both drawn and skipped')
def plot_probe(c, ctx):
    dims = 2
    d0, d1 = c['dims'] or (0, 1)
    rss = [[dict(c=r['c'][:2], a=r['a']) for r in rs] for rs in c['rs']]
    dec = PittRulesDecoder(box(dims), spaces.Discrete(6))
    fig, ax = plt.subplots()
    try:
        cx = {'leap': {'generation': 0}}
        kw = dict(plot_dimensions=tuple(c['dims'])) if c['dims'] else {}
        p = PlotPittRuleProbe(dec, ax=ax, xlim=(-2, 2), ylim=(-3, 3), modulo=c['modulo'], context=cx, **kw)
        prob = FunctionProblem(lambda x: 0.0, True)
        pop = []
        for rs, f in zip(rss, c['fits']):
            i = Individual(np.array(genome(rs, c['noise'])), problem=prob)
            i.fitness = f
            pop.append(i)
        best = rss[max(range(len(pop)), key=lambda k: c['fits'][k])]
        want = []
        for r in best:
            (x0, x1), (y0, y1) = r['c'][d0], r['c'][d1]
            if x0 > x1:
                x0, x1 = -2, 2
            if y0 > y1:
                y0, y1 = -3, 3
            want.append((x0, y0, x1 - x0, y1 - y0, int(r['a'][0]) == 0))
        drawn = False
        before = [snap(i) for i in pop]
        for g in c['gens']:
            cx['leap']['generation'] = g
            out = p(pop)
            check(out is pop and [snap(i) for i in pop] == before, 'the probe changed the population')
            drawn = drawn or g % c['modulo'] == 0
            got = []
            for q in ax.patches:
                col = q.get_edgecolor()
                got.append((q.get_x(), q.get_y(), q.get_width(), q.get_height(), col[2] > col[0]))
            check(sorted(got) == (sorted(want) if drawn else []), 'generation %d: boxes %r, expected %r', g, got, want if drawn else [])
        ctx.nt(any(lo > hi for r in best for lo, hi in r['c']) or len({g % c['modulo'] == 0 for g in c['gens']}) > 1)
    finally:
        plt.close(fig)
