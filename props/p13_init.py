from common import *
from stats import *
from leap_ec.representation import Representation
from leap_ec.decoder import Decoder
from leap_ec.individual import RobustIndividual, WholeEvaluatedIndividual
from leap_ec.distrib.individual import DistributedIndividual
from leap_ec.binary_rep.initializers import create_binary_sequence
from leap_ec.int_rep.initializers import create_int_vector
from leap_ec.real_rep.initializers import create_real_vector
from leap_ec.segmented_rep.initializers import create_segmented_sequence

M = Module('P13')
M.boost = 2
M.assumptions = ['uniformity judged at 6.5 sigma']

iv = st.one_of(st.tuples(st.integers(-50, 50), st.integers(0, 5)), st.tuples(st.integers(-50, 50), st.integers(0, 5)), st.tuples(st.integers(-10 ** 10, 10 ** 10), st.integers(0, 5))).map(lambda t: [t[0], t[0] + t[1]])
ib = st.one_of(*[st.lists(iv, min_size=1, max_size=6)] * 4, st.tuples(iv, st.integers(7, 14)).map(lambda t: [list(t[0])] * t[1]))
rb = st.lists(st.tuples(st.sampled_from([-1e6, -5.12, -1.0, 0.0, 3.5, 1e3]),
                        st.sampled_from([0.0, 1e-3, 1.0, 10.0, 1e6])).map(lambda t: [t[0], t[0] + t[1]]),
              min_size=1, max_size=6)
rb = st.one_of(*[rb] * 4, st.integers(7, 14).map(lambda n: [[-1.0, 3.0]] * n))


@M.sub(case(kind=st.sampled_from(['bin', 'int', 'real']), n=upto(0, 9, 40, 130), ib=ib, rb=rb,
            draws=st.integers(1, 5), tup=bools), n=700, rule='genome of at least two genes')
def valid(c, ctx):
    if c['kind'] == 'bin':
        init, n = create_binary_sequence(c['n']), c['n']
    elif c['kind'] == 'int':
        b = [tuple(x) for x in c['ib']] if c['tup'] else c['ib']
        init, n = create_int_vector(b), len(c['ib'])
    else:
        b = [tuple(x) for x in c['rb']] if c['tup'] else c['rb']
        init, n = create_real_vector(b), len(c['rb'])
    gs = [init() for _ in range(c['draws'])]
    for g in gs:
        check(isinstance(g, np.ndarray) and g.shape == (n,), 'not a vector of %d genes: %r', n, g)
        for i, x in enumerate(g):
            if c['kind'] == 'bin':
                check(int(x) in (0, 1), 'not a bit: %r', x)
            elif c['kind'] == 'int':
                check(np.issubdtype(g.dtype, np.integer), 'not integral')
                lo, hi = c['ib'][i]
                check(lo <= x <= hi, 'gene %d = %r outside [%d,%d]', i, x, lo, hi)
            else:
                lo, hi = c['rb'][i]
                check(lo <= x <= hi, 'gene %d = %r outside [%g,%g]', i, x, lo, hi)
    for i in range(len(gs)):
        for j in range(i):
            check(not np.shares_memory(gs[i], gs[j]), 'two genomes share storage')
    ctx.nt(n > 1)
    ctx.label(c['kind'])


@M.sub(case(kind=st.sampled_from(['bin', 'int', 'real']), n=upto(1, 5, 12, 20), ib=ib, rb=rb), n=50,
       mult=6, shards=3, rule='every case (1200 genomes: per-gene, pairwise, serial)')
def uniform(c, ctx):
    N = 1200
    if c['kind'] == 'bin':
        X = np.array([create_binary_sequence(c['n'])() for _ in range(N // 2)] +
                     (lambda f: [f() for _ in range(N - N // 2)])(create_binary_sequence(c['n']))).astype(bool)
        check_mask_matrix(X, 0.5, 'random bits')
    elif c['kind'] == 'int':
        f = create_int_vector([tuple(b) for b in c['ib']])
        X = np.array([f() for _ in range(N)])
        for j, (lo, hi) in enumerate(c['ib']):
            check_uniform_ints(X[:, j], lo, hi, 'int gene %d' % j)
        halves = X > np.array([(lo + hi - 1) // 2 for lo, hi in c['ib']])
        _indep(halves)
    else:
        f = create_real_vector([tuple(b) for b in c['rb']])
        X = np.array([f() for _ in range(N)])
        for j, (lo, hi) in enumerate(c['rb']):
            check_uniform_reals(X[:, j], lo, hi, 'real gene %d' % j)
        halves = X > np.array([(lo + hi) / 2 for lo, hi in c['rb']])
        _indep(halves)
    ctx.nt()
    ctx.label(c['kind'])


def _indep(H):
    N, n = H.shape
    p = H.mean(axis=0)
    for j in range(n):
        if not 0.05 < p[j] < 0.95:
            continue
        check(abs(np.mean(H[1:, j] & H[:-1, j]) - p[j] ** 2) < 8 / math.sqrt(N),
              'gene %d depends on the previous genome', j)
        for k in range(j):
            if 0.05 < p[k] < 0.95:
                check(abs(np.mean(H[:, j] & H[:, k]) - p[j] * p[k]) < 6.5 * 0.5 / math.sqrt(N) + 0.01,
                      'genes %d and %d are dependent', k, j)


@M.sub(case(kind=st.sampled_from(['bin', 'int', 'real']), n=st.sampled_from([20000, 60000]), w=st.sampled_from([1, 2, 9, 40]), lo=st.sampled_from([-7, 0, 250, 70000])), n=30, mult=6,
       rule='every case (one genome of many genes)')
def long_genome(c, ctx):
    """High-power uniformity test over one very long genome."""
    n, lo, hi = c['n'], c['lo'], c['lo'] + c['w']
    if c['kind'] == 'bin':
        lo, hi = 0, 1
        x = create_binary_sequence(n)().astype(int)
    elif c['kind'] == 'int':
        x = create_int_vector([(lo, hi)] * n)()
    else:
        x = create_real_vector([(lo, hi)] * n)()
        check(float(x.min()) >= lo and float(x.max()) <= hi and len(np.unique(x)) > 0.99 * n, 'repeated or outlying genes')
        x = np.floor((x - lo) / (hi - lo) * 40).astype(int).clip(0, 39) + lo
        hi = lo + 39
    check(x.shape == (n,) and int(x.min()) >= lo and int(x.max()) <= hi, 'genes outside their range')
    cnt = np.bincount(x - lo, minlength=hi - lo + 1)
    for v in range(hi - lo + 1):
        check_binom(int(cnt[v]), n, 1 / (hi - lo + 1), 'value or bin %d' % v)
    t = x > (lo + hi) / 2
    for lag in (1, 2, n // 2):
        check_binom(int((t[lag:] & t[:-lag]).sum()), n - lag, t.mean() ** 2, 'genes %d apart' % lag, sigmas=14)
    ctx.nt()


@M.sub(case(length=upto(0, 6, 40, 90), callable_=bools, lens=st.lists(st.integers(0, 6), min_size=1, max_size=6),
            seglen=st.integers(1, 4), kind=st.sampled_from(['bin', 'int', 'real'])), n=400,
       rule='at least two segments')
def segmented(c, ctx):
    made = []
    inner = {'bin': create_binary_sequence(c['seglen']),
             'int': create_int_vector([(3, 5)] * c['seglen']),
             'real': create_real_vector([(3, 5)] * c['seglen'])}[c['kind']]

    def seq():
        s = inner()
        made.append(s)
        return s
    it = iter(c['lens'] * 3)
    init = create_segmented_sequence((lambda: next(it)) if c['callable_'] else c['length'], seq)
    for r in range(len(c['lens'])):
        del made[:]
        g = init()
        want = (c['lens'] * 3)[r] if c['callable_'] else c['length']
        check(isinstance(g, list) and len(g) == want, 'got %d segments, wanted %d', len(g), want)
        check(same_list(g, made), 'segments are not the freshly initialised ones, in order')
        ctx.nt(want > 1)


class Dec(Decoder):
    def decode(self, genome, *args, **kwargs):
        return genome


CLS = {'Individual': Individual, 'Robust': RobustIndividual, 'Whole': WholeEvaluatedIndividual,
       'Distributed': DistributedIndividual}


@M.sub(case(cls=st.sampled_from(sorted(CLS)), n=upto(0, 12, 33, 70, 130), default_dec=bools,
            default_cls=bools, single=bools), n=400, rule='at least two individuals')
def representation(c, ctx):
    made = []

    def init():
        made.append(np.array([len(made), 5]))
        return made[-1]
    dec = Dec()
    kw = {}
    if not c['default_dec']:
        kw['decoder'] = dec
    if not c['default_cls']:
        kw['individual_cls'] = CLS[c['cls']]
    rep = Representation(init, **kw)
    prob = FunctionProblem(lambda p: 1.0, True)
    pop = [rep.create_individual(prob)] if c['single'] else rep.create_population(c['n'], prob)
    n = 1 if c['single'] else c['n']
    check(isinstance(pop, list) and len(pop) == n, 'asked for %d, got %d', n, len(pop))
    check(len(made) == n, 'initialiser called %d times for %d individuals', len(made), n)
    want = Individual if c['default_cls'] else CLS[c['cls']]
    for i, ind in enumerate(pop):
        check(type(ind) is want, 'wrong class %r', type(ind))
        check(ind.problem is prob, 'wrong problem')
        check(isinstance(ind.decoder, IdentityDecoder) if c['default_dec'] else ind.decoder is dec,
              'wrong decoder')
        check(ind.fitness is None and set(ind.parents) == set(), 'not fresh')
    check(sorted(int(i.genome[0]) for i in pop) == list(range(n)),
          'genomes are not the freshly initialised ones')
    check(len({i.uuid for i in pop}) == n, 'identifiers not unique')
    pop2 = want.create_population(3, initialize=init, decoder=dec, problem=prob)
    check([type(i) for i in pop2] == [want] * 3 and all(
        i.decoder is dec and i.problem is prob for i in pop2), 'class-level creation wrong')
    ctx.nt(n > 1)
