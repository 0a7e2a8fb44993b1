from common import *
import itertools
from stats import *
from leap_ec.real_rep.ops import mutate_gaussian, genome_mutate_gaussian, apply_hard_bounds

M = Module('P11')
M.assumptions = ['step distribution judged at 6.5 sigma']


def apply(form, g, **kw):
    if form == 'genome':
        return genome_mutate_gaussian(g, **kw)
    if form == 'genome_curried':
        return genome_mutate_gaussian(**kw)(g)
    ind = Individual(g, problem=FunctionProblem(lambda p: 0.0, True))
    ind.fitness = 3.0
    out = next(mutate_gaussian(**kw)(iter([ind]))) if form == 'op_curried' else \
        next(mutate_gaussian(iter([ind]), **kw))
    check(out is ind, 'operator emitted another individual')
    check(out.fitness is None, 'fitness not invalidated')
    return out.genome


FORMS = st.sampled_from(['genome', 'genome_curried', 'op', 'op_curried'])
genes = st.lists(st.integers(-40, 40).map(lambda i: i / 4), min_size=1, max_size=8)
many_genes = st.one_of(genes, genes, genes, genes, st.lists(st.integers(-40, 40).map(lambda i: i / 4), min_size=30, max_size=80))


@st.composite
def bounded(draw):
    g = draw(many_genes)
    n = len(g)
    btype = draw(st.sampled_from(['none', 'scalar', 'list', 'array', 'half']))
    if btype == 'none':
        b = None
    elif btype == 'scalar':
        lo = draw(st.integers(-48, 20))
        b = [lo / 4, (lo + draw(st.integers(0, 10))) / 4]
    elif btype == 'half':
        b = draw(st.sampled_from([[-math.inf, 3], [-2, math.inf]]))
    else:
        b = [[lo / 4, (lo + w) / 4] for lo, w in draw(st.lists(
            st.tuples(st.integers(-48, 20), st.integers(0, 40)), min_size=n, max_size=n))]
    stype = draw(st.sampled_from(['scalar', 'list', 'array']))
    sv = st.sampled_from([0.0, 0.25, 1.0, 10.0, 1e3])
    std = draw(sv) if stype == 'scalar' else draw(st.lists(sv, min_size=n, max_size=n))
    e = draw(st.one_of(st.just('isotropic'), st.just(0), st.just(n), st.integers(0, n),
                       st.sampled_from([0.5, 1.0])))
    return dict(seed=draw(seeds), g=g, btype=btype, bounds=b, stype=stype, std=std, e=e,
                form=draw(FORMS))


def inbound(x, b, i):
    if b is None:
        return True
    lo, hi = b if not isinstance(b[0], (list, tuple)) else b[i]
    return lo <= x <= hi


@M.sub(bounded(), n=1200, shards=2, rule='bounds given and some gene mutated')
def bounds_and_shape(c, ctx):
    g, n = c['g'], len(c['g'])
    kw = {'expected_num_mutations': c['e']}
    kw['std'] = np.array(c['std']) if c['stype'] == 'array' else c['std']
    b = c['bounds']
    if b is not None:
        kw['bounds'] = tuple(b) if c['btype'] in ('scalar', 'half') else \
            np.array(b, dtype=float) if c['btype'] == 'array' else [tuple(x) for x in b]
    out = apply(c['form'], np.array(g, dtype=float), **kw)
    check(isinstance(out, np.ndarray) and out.shape == (n,), 'shape changed')
    check(np.issubdtype(out.dtype, np.floating), 'no longer real: %s', out.dtype)
    for i in range(n):
        check(math.isfinite(out[i]), 'gene %d became %r', i, out[i])
        check(inbound(out[i], b, i), 'gene %d = %r outside bounds %r', i, out[i], b)
        s = c['std'] if c['stype'] == 'scalar' else c['std'][i]
        if (c['e'] == 0 or s == 0.0) and inbound(g[i], b, i):
            check(out[i] == g[i], 'gene %d changed from %r to %r with rate %r std %r', i,
                  g[i], out[i], c['e'], s)
        if b is None and c['e'] in ('isotropic',) and s > 0:
            check(out[i] != g[i], 'isotropic mutation left gene %d alone', i)
    ctx.nt(b is not None and any(out[i] != g[i] for i in range(n)))
    ctx.label(c['btype'])
    ctx.label('std-' + c['stype'])


@M.sub(case(n=st.integers(1, 5), form=FORMS, stds=st.lists(st.sampled_from([0.5, 1.0, 4.0]), min_size=5, max_size=5),
            vector=bools, e=st.one_of(st.just('isotropic'), st.sampled_from([0.2, 0.5, 1.0])),
            g0=st.lists(st.sampled_from([-3.0, 0.0, 7.0]), min_size=5, max_size=5)),
       n=50, mult=6, shards=3, rule='every case (1000 mutations)')
def distribution(c, ctx):
    n, N = c['n'], 1000
    stds = c['stds'][:n] if c['vector'] else [c['stds'][0]] * n
    g0 = np.array(c['g0'][:n])
    e = c['e'] if c['e'] == 'isotropic' else min(c['e'] * n, n)
    p = 1.0 if e == 'isotropic' else e / n
    kw = dict(std=stds if c['vector'] else stds[0], expected_num_mutations=e)
    steps = np.array([apply(c['form'], g0.copy(), **kw) - g0 for _ in range(N)])
    mask = steps != 0
    check_mask_matrix(mask, p, 'gaussian mutation expected=%r' % (e,))
    for j in range(n):
        z = steps[mask[:, j], j] / stds[j]
        check_normal(z, 'gene %d std %g' % (j, stds[j]))
    for j in range(n):
        for k in range(j + 1, n):
            m = mask[:, j] & mask[:, k]
            if m.sum() > 100:
                a, b = steps[m, j] > 0, steps[m, k] > 0
                check_binom(int((a == b).sum()), int(m.sum()), 0.5, 'sign of genes %d,%d' % (j, k))
    ctx.nt()


@M.sub(case(n=st.sampled_from([30000, 100000]), form=FORMS, rate=st.sampled_from([0.004, 0.0375, 1 / 3, 0.785, 'isotropic']), std=st.sampled_from([1e-4, 0.37, 1.0, 250.0, 1e5]), vector=bools, at=st.sampled_from([0.0, -1e3, 4.0])), n=40, mult=6,
       rule='every case (one genome of many genes)')
def long_genome(c, ctx):
    """High-power test of rate and step distribution in one call."""
    n, r = c['n'], c['rate']
    std = c['std'] * np.where(np.arange(n) % 2, 1.0, 3.0) if c['vector'] else c['std']
    base = np.full(n, c['at'])
    d = apply(c['form'], base.copy(), std=std, expected_num_mutations=r if r == 'isotropic' else r * n) - base
    sel = d != 0
    if r == 'isotropic':
        check(sel.mean() > 0.999, 'isotropic mutation left %d of %d genes alone', int((~sel).sum()), n)
    else:
        check_binom(int(sel.sum()), n, r, 'mutated genes of %d' % n)
        check_binom(int((sel[1:] & sel[:-1]).sum()), n - 1, r ** 2, 'adjacent mutated genes', sigmas=12)
    z = (d / std)[sel]
    check_normal(z, 'steps of std %g' % c['std'])
    if len(z) > 1000:
        a, b = z[1:] > 0, z[:-1] > 0
        check_binom(int((a == b).sum()), len(a), 0.5, 'signs of neighbouring steps')
        check(abs(np.corrcoef(np.abs(z[1:]), np.abs(z[:-1]))[0, 1]) < 8 / math.sqrt(len(z)), 'sizes of neighbouring steps are related')
    ctx.nt()


@M.sub(case(g=genes, lo=st.integers(-12, 6), w=st.integers(0, 9), per=bools,
            los=st.lists(st.integers(-12, 6).map(lambda i: i / 2), min_size=8, max_size=8), arr=bools), n=400,
       rule='some gene is out of bounds')
def hard_bounds(c, ctx):
    n = len(c['g'])
    b = [(c['los'][i], c['los'][i] + c['w']) for i in range(n)] if c['per'] else (c['lo'], c['lo'] + c['w'])
    out = apply_hard_bounds(np.array(c['g']), np.array(b) if c['arr'] else b)
    for i in range(n):
        lo, hi = b[i] if c['per'] else b
        want = min(max(c['g'][i], lo), hi)
        check(out[i] == want, 'gene %d: %r clipped to %r, expected %r', i, c['g'][i], out[i], want)
        ctx.nt(want != c['g'][i])


@M.sub(case(x=st.integers(0, 1)), n=2, rule='every case')
def needs_rate(c, ctx):
    ctx.nt()
    check(raises((ValueError, TypeError), lambda: next(
        mutate_gaussian(iter([Individual(np.array([1.0]))]), std=1.0))),
        'mutation without a rate accepted')


@M.sub(case(g=genes, form=FORMS, slope=st.sampled_from([1.0, 0.5, -2.0, 0.0, 3.0]),
            icept=st.sampled_from([0.0, 1.5, -4.0]), std=st.sampled_from([0.0, 1e-9, 0.25]),
            iso=bools, bounded=bools), n=400,
       rule='slope or intercept differ from the identity and every gene is selected')
def transform(c, ctx):
    """slope * (gene + noise) + intercept, then the bounds; genes that are not
    selected keep their value."""
    n = len(c['g'])
    e = 'isotropic' if c['iso'] else n
    kw = dict(std=c['std'], expected_num_mutations=e, transform_slope=c['slope'],
              transform_intercept=c['icept'])
    if c['bounded']:
        kw['bounds'] = (-5.0, 5.0)
    g = np.array(c['g'])
    out = apply(c['form'], g.copy(), **kw)
    for i in range(n):
        want = c['slope'] * g[i] + c['icept']
        tol = 8 * c['std'] * abs(c['slope']) + 1e-9
        if c['bounded']:
            want = min(max(want, -5.0), 5.0)
        check(abs(out[i] - want) <= tol, 'gene %d: %r became %r, expected about %r', i, g[i], out[i], want)
    kw['expected_num_mutations'] = 0
    out = apply(c['form'], np.clip(g, -5, 5), **kw)
    check(out.tolist() == np.clip(g, -5, 5).tolist(), 'unselected genes were transformed')
    ctx.nt((c['slope'], c['icept']) != (1.0, 0.0))


@M.sub(case(kind=st.sampled_from(['list', 'tuple']), form=FORMS), n=16, rule='every case')
def non_array_genomes(c, ctx):
    g = [1.0, 2.0] if c['kind'] == 'list' else (1.0, 2.0)
    check(raises(ValueError, lambda: apply(c['form'], g, std=1.0, expected_num_mutations=1)),
          '%s genome accepted', c['kind'])
    ctx.nt()
