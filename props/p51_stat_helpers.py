"""The statistical helpers decide exactly what their test statistics say."""
from common import *
from scipy import stats as ss
from leap_ec import statistical_helpers as sh

M = Module('P51')
M.assumptions = ['Expected counts are positive; reference p-values come from the chi-squared survival function applied to the textbook statistic.', 'Verdicts whose p-value is within 1e-9 of the threshold are not judged.']


def chi2_p(exp, obs):
    keys = sorted(set(exp) | set(obs))
    s = sum((obs.get(k, 0) - exp.get(k, 0)) ** 2 / exp.get(k, 0) for k in keys)
    return float(ss.chi2.sf(s, len(keys) - 1))


@M.sub(case(exp=st.one_of(st.lists(st.integers(1, 60), min_size=2, max_size=7), st.lists(st.integers(1, 60), min_size=2, max_size=7), st.lists(st.integers(1, 20), min_size=8, max_size=8).map(lambda l: l * 15)), moves=st.lists(st.tuples(st.integers(0, 119), st.integers(0, 119), st.integers(0, 30)), max_size=12), p=st.sampled_from([0.001, 0.01, 0.05, 0.5, 0.9]), order=seeds, strs=bools), n=1500, shards=2, rule='the distributions differ')
def chisquare(c, ctx):
    n = len(c['exp'])
    obs = list(c['exp'])
    for a, b, k in c['moves']:
        a, b = a % n, b % n
        k = min(k, obs[a])
        obs[a] -= k
        obs[b] += k
    keys = ['k%d' % i for i in range(n)] if c['strs'] else list(range(n))
    rs = np.random.RandomState(c['order'])
    E = {keys[i]: c['exp'][i] for i in rs.permutation(n)}
    O = {keys[i]: obs[i] for i in rs.permutation(n) if obs[i] or rs.rand() < 0.5}
    want = chi2_p(E, O)
    check(close(sh.stochastic_chisquare(dict(E), dict(O)), want, 1e-8, 1e-10), 'p-value %r, expected %r', sh.stochastic_chisquare(dict(E), dict(O)), want)
    if abs(want - c['p']) > 1e-9:
        got = sh.stochastic_equals(dict(E), dict(O), p=c['p'])
        check(bool(got) == (want >= c['p']), 'equality %r at p-value %r and threshold %r', got, want, c['p'])
    bad = dict(O)
    bad[keys[0]] = bad.get(keys[0], 0) + 1
    check(raises(Exception, sh.stochastic_chisquare, dict(E), bad), 'unequal totals were accepted')
    ctx.nt(obs != c['exp'])
    ctx.label('rejected', want < c['p'])


@M.sub(case(obs=st.one_of(st.lists(st.integers(0, 80), min_size=1, max_size=7), st.lists(st.integers(0, 30), min_size=8, max_size=8).map(lambda l: l * 8)), p=st.sampled_from([0.001, 0.01, 0.05, 0.5])), n=800, rule='at least two values')
def uniform(c, ctx):
    obs = {k: v for k, v in enumerate(c['obs'])}
    n = sum(c['obs'])
    if n == 0:
        return
    got = sh.equals_uniform(dict(obs), p=c['p'])
    if len(obs) == 1:
        check(bool(got), 'a single value is uniform')
        return
    want = chi2_p({k: n / len(obs) for k in obs}, obs)
    if abs(want - c['p']) > 1e-9:
        check(bool(got) == (want >= c['p']), 'uniformity %r at p-value %r and threshold %r', got, want, c['p'])
    ctx.nt()


@M.sub(case(vals=st.lists(st.integers(-3, 3), min_size=1, max_size=40), rep=upto(1, 2, 500)), n=500, rule='a repeated value')
def collect(c, ctx):
    vals = [None if v == -3 else 'x' if v == 3 else v for v in c['vals']] * c['rep']
    it = iter(vals + [99])
    d = sh.collect_distribution(lambda: next(it), samples=len(vals))
    want = {}
    for v in vals:
        want[v] = want.get(v, 0) + 1
    check(d == want, 'counted %r, expected %r', d, want)
    check(next(it) == 99, 'sampled more often than asked')
    ctx.nt(len(want) < len(vals))


@M.sub(case(mu=st.sampled_from([-3.0, 0.0, 15.0]), sd=st.sampled_from([0.5, 1.0, 4.0, 1e-5, 1e4]), skew=bools, n=upto(30, 400, 700, 1500), m=upto(30, 400, 1500), shift=st.sampled_from([0.0, 0.0, 0.02, 3.0, -3.0]), p=st.sampled_from([0.001, 0.01, 0.05])), n=800, rule='a shifted sample')
def gaussian(c, ctx):
    """A sample matched to the reference is accepted, one shifted by several standard errors refused."""
    rs = np.random.RandomState(c['seed'])
    x = rs.exponential(1, size=c['n']) if c['skew'] else rs.normal(0, 1, size=c['n'])
    x = (x - x.mean()) / x.std()
    x = c['mu'] + c['sd'] * (x + c['shift'])
    got = sh.equals_gaussian(x, c['mu'], c['sd'], c['m'], p=c['p'])
    se = math.sqrt(1 / c['n'] + 1 / c['m'])
    t = abs(c['shift']) / se
    # equal-variance t statistic, up to the choice of variance denominator
    lo = 2 * ss.t.sf(t * 1.05, c['n'] + c['m'] - 2)
    hi = 2 * ss.t.sf(t * 0.95, c['n'] + c['m'] - 2)
    if lo > c['p']:
        check(bool(got), 'refused a sample whose mean is %g standard errors off', t)
    if hi < c['p']:
        check(not got, 'accepted a sample whose mean is %g standard errors off', t)
    ctx.nt(c['shift'] != 0)
