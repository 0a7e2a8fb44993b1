from common import *
import itertools
from stats import *
from leap_ec.binary_rep.ops import mutate_bitflip, genome_mutate_bitflip

M = Module('P10')
M.boost = 2
M.assumptions = ['rates judged at 6.5 sigma']
bits = st.one_of(*[st.lists(st.integers(0, 1), min_size=1, max_size=12)] * 5, st.lists(st.integers(0, 1), min_size=60, max_size=140))


def mk(b, kind):
    return np.array(b, dtype={'int': int, 'bool': bool, 'int8': np.int8, 'uint8': np.uint8, 'int32': np.int32, 'float': float}[kind])


def apply(form, g, **kw):
    """one mutation through either form; returns the mutated genome"""
    if form == 'genome':
        return genome_mutate_bitflip(g, **kw)
    if form == 'genome_curried':
        return genome_mutate_bitflip(**kw)(g)
    ind = Individual(g, problem=FunctionProblem(lambda p: 0.0, True))
    ind.fitness = 3.0
    out = next(mutate_bitflip(**kw)(iter([ind]))) if form == 'op_curried' else \
        next(mutate_bitflip(iter([ind]), **kw))
    check(out is ind, 'operator emitted another individual')
    check(out.fitness is None, 'fitness not invalidated')
    return out.genome


FORMS = st.sampled_from(['genome', 'genome_curried', 'op', 'op_curried'])
KIND = st.sampled_from(['int', 'int', 'bool', 'int8', 'uint8', 'int32', 'float'])


@M.sub(case(b=bits, kind=KIND, form=FORMS, p=st.sampled_from([0.0, 0.1, 0.5, 0.9, 1.0]),
            expected=bools), n=1000, shards=2, rule='some bit flipped')
def shape(c, ctx):
    b, n = c['b'], len(c['b'])
    kw = {'expected_num_mutations': c['p'] * n} if c['expected'] else {'probability': c['p']}
    src = mk(b, c['kind'])
    out = apply(c['form'], src, **kw)
    check(isinstance(out, np.ndarray) and out.shape == (n,), 'shape changed: %r', out)
    check(out.dtype == mk(b, c['kind']).dtype, 'dtype changed to %s', out.dtype)
    o = [int(x) for x in out]
    check(set(o) <= {0, 1} and all(float(x) in (0.0, 1.0) for x in out), 'not bits: %r', out)
    if c['p'] == 0.0:
        check(o == b, 'p=0 changed %r to %r', b, o)
    if c['p'] == 1.0 and not c['expected']:
        check(o == [1 - x for x in b], 'p=1 turned %r into %r', b, o)
    ctx.nt(o != b)


@M.sub(case(n=st.sampled_from([1, 2, 2, 3, 4, 5, 6, 7]), form=FORMS, rate=st.sampled_from([0.05, 0.2, 0.4, 0.5, 0.8]),
            expected=bools, fill=st.integers(0, 2)), n=60, mult=6, shards=3,
       rule='every case (1000 mutations, per-gene, pairwise and serial rates)')
def rate(c, ctx):
    n, N = c['n'], 1000
    kw = {'expected_num_mutations': c['rate'] * n} if c['expected'] else {'probability': c['rate']}
    mask = np.zeros((N, n), dtype=bool)
    base = np.array([[0] * n, [1] * n, [i % 2 for i in range(n)]][c['fill']])
    for r in range(N):
        out = apply(c['form'], base.copy(), **kw)
        mask[r] = out != base
    check_mask_matrix(mask, c['rate'], 'bit-flip with %r' % kw)
    ctx.nt()


@M.sub(case(n=st.sampled_from([40000, 200000]), form=FORMS, rate=st.sampled_from([0.004, 0.0375, 0.125, 1 / 3, 0.785, 0.996]), expected=bools, ones=bools), n=40, mult=6,
       rule='every case (one genome of many bits)')
def long_genome(c, ctx):
    """High-power rate test: one call over a very long genome."""
    n = c['n']
    kw = {'expected_num_mutations': c['rate'] * n} if c['expected'] else {'probability': c['rate']}
    base = np.full(n, int(c['ones']))
    f = apply(c['form'], base.copy(), **kw) != base
    check_binom(int(f.sum()), n, c['rate'], 'flips in a genome of %d' % n)
    check_binom(int((f[1:] & f[:-1]).sum()), n - 1, c['rate'] ** 2, 'adjacent flips', sigmas=12)
    for part in np.array_split(f, 4):
        check_binom(int(part.sum()), len(part), c['rate'], 'flips in a quarter of the genome')
    ctx.nt()


@M.sub(case(lens=st.lists(st.integers(1, 8), min_size=2, max_size=6), e=st.sampled_from([0.5, 1.0])),
       n=20, mult=6, rule='individuals of different lengths in one stream (400 passes)')
def dynamic_length(c, ctx):
    """The per-bit probability follows each genome's own length."""
    N = 400
    flips = [0] * len(c['lens'])
    for _ in range(N):
        inds = [Individual(np.zeros(l, dtype=int)) for l in c['lens']]
        for j, o in enumerate(itertools.islice(
                mutate_bitflip(iter(inds), expected_num_mutations=c['e']), len(inds))):
            flips[j] += int(o.genome.sum())
    for j, l in enumerate(c['lens']):
        check_binom(flips[j], N * l, c['e'] / l, 'length %d' % l)
    ctx.nt(len(set(c['lens'])) > 1)


@M.sub(case(e=st.one_of(st.none(), st.sampled_from([0.0, 1.0])),
            p=st.one_of(st.none(), st.sampled_from([-0.5, 0.0, 0.5, 1.0, 1.5]))), n=120,
       rule='an invalid combination of rates')
def rate_arguments(c, ctx):
    ok = (c['e'] is None) != (c['p'] is None) and (c['p'] is None or 0 <= c['p'] <= 1)
    kw = {}
    if c['e'] is not None:
        kw['expected_num_mutations'] = c['e']
    if c['p'] is not None:
        kw['probability'] = c['p']
    ind = Individual(np.array([0, 1, 1]))
    err = raises(ValueError, lambda: next(mutate_bitflip(iter([ind]), **kw)))
    check(err != ok, 'rates %r: error=%s', kw, err)
    err = raises((ValueError, AssertionError),
                 lambda: genome_mutate_bitflip(np.array([0, 1, 1]), **kw))
    check(err != ok, 'genome form, rates %r: error=%s', kw, err)
    ctx.nt(not ok)
