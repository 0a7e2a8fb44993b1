from common import *
from leap_ec import ops
from leap_ec.parsimony import lexical_parsimony, koza_parsimony
import functools

M = Module('P38')
M.assumptions = ['Fitness, penalty and lengths are multiples of 1/8 so that keys are exact.']

fitness = st.one_of(tied, eighths, st.integers(-3, 3).map(lambda i: i / 2.0 ** 34), st.integers(-3, 3).map(lambda i: 1e6 + i / 8), st.integers(-3, 3))
lens = upto(0, 12, 101, 150, 151, 300)


def indl(f, n, problem, kind):
    g = np.zeros(n) if kind == 'array' else [[0]] * n
    i = Individual(g, problem=problem)
    i.fitness = f
    return i


def mkpop(c):
    problem = FunctionProblem(lambda p: 0.0, c['maximize'])
    return [indl(f, n, problem, c['kind']) for f, n in c['items']]


def sgn(a, b):
    return (a > b) - (a < b)


common_fields = dict(items=st.lists(st.tuples(fitness, lens), min_size=2, max_size=10), maximize=bools,
                     kind=st.sampled_from(['array', 'segs']), pen=st.integers(-8, 40).map(lambda i: i / 8))


def koza_value(f, n, maximize, pen):
    return (f if maximize else -f) - pen * n


def lex_cmp(a, b, maximize):
    (fa, na), (fb, nb) = a, b
    s = sgn(fa, fb) if maximize else sgn(fb, fa)
    return s if s else sgn(nb, na)


@M.sub(case(**common_fields), n=1000, rule='at least two individuals of equal fitness and different length')
def keys(c, ctx):
    pop = mkpop(c)
    before = [snap(p) for p in pop]
    for a, x in zip(pop, c['items']):
        kv = koza_parsimony(penalty=c['pen'])(a)
        check(close(kv, koza_value(*x, c['maximize'], c['pen'])), 'koza key %r for %r', kv, x)
        check(koza_parsimony(a, penalty=c['pen']) == kv, 'curried and direct koza keys differ')
        for b, y in zip(pop, c['items']):
            ka, kb = lexical_parsimony(a), lexical_parsimony(b)
            check(sgn(ka, kb) == lex_cmp(x, y, c['maximize']), 'lexical key compares %r and %r wrongly: %r %r', x, y, ka, kb)
    check([snap(p) for p in pop] == before, 'a key modified an individual')
    fs = {}
    for f, n in c['items']:
        fs.setdefault(f, set()).add(n)
    ctx.nt(any(len(v) > 1 for v in fs.values()))


@M.sub(case(size=st.integers(1, 10), k=st.integers(1, 5), which=st.sampled_from(['lex', 'koza']), **common_fields),
       n=800, shards=2, rule='at least two individuals of equal fitness and different length')
def selection(c, ctx):
    pop = mkpop(c)
    items = c['items']
    if c['which'] == 'lex':
        key = lexical_parsimony
        ref = functools.cmp_to_key(lambda a, b: lex_cmp(a, b, c['maximize']))
    else:
        key = koza_parsimony(penalty=c['pen'])
        ref = lambda x: koza_value(*x, c['maximize'], c['pen'])
    kept = ops.truncation_selection(pop, size=min(c['size'], len(pop)), key=key)
    ks = [idx_of(i, pop) for i in kept]
    out = [i for i in range(len(pop)) if i not in ks]
    check(len(ks) == min(c['size'], len(pop)) and len(set(ks)) == len(ks), 'truncation kept %r', ks)
    for i in ks:
        for o in out:
            check(not ref(tuple(items[o])) > ref(tuple(items[i])), 'truncation dropped %r for %r', items[o], items[i])
    # a tournament over the whole population without replacement keeps its best
    n = len(pop)
    best = max(ref(tuple(x)) for x in items)
    sel = ops.tournament_selection(pop, k=25 * n, key=key)
    for _ in range(3):
        i = idx_of(next(sel), pop)
        got = ref(tuple(items[i]))
        # 25n draws with replacement: a best member is missed with p < e^-25
        check(not best > got, 'tournament picked %r', items[i])
    fs = {}
    for f, m in items:
        fs.setdefault(f, set()).add(m)
    ctx.nt(any(len(v) > 1 for v in fs.values()))
