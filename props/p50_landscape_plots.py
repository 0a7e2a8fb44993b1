"""2-D landscape plots show the function's values on the requested grid."""
from common import *
import matplotlib
matplotlib.use('Agg')
from matplotlib import pyplot as plt
from leap_ec.real_rep import problems as rp

M = Module('P50')
M.boost = 2
M.assumptions = ['Functions return floats (numpy infers the type of the whole surface from the first point).', 'Values are read from the call that draws on the axes.']


class Axes:
    """Stand-in axes recording what is drawn."""

    def __init__(self):
        self.calls, self.title = [], None

    def plot_surface(self, x, y, z, **k):
        self.calls.append(('surface', np.array(x, float), np.array(y, float), np.array(z, float), k))
        return 'drawn'

    def contour(self, x, y, z, **k):
        self.calls.append(('contour', np.array(x, float), np.array(y, float), np.array(z, float), k))
        return 'drawn'

    def set_title(self, t):
        self.title = t


def f(p):
    return float(p[0]) / 3.0 - float(p[1]) ** 2 + 0.25 * float(np.sum(p[2:]))


@M.sub(case(kind=st.sampled_from(['surface', 'contour']), via=st.sampled_from(['problem', 'function']), lo=eighths, lo2=eighths, wx=upto(1, 5, 12), wy=upto(1, 5, 12), gran=st.sampled_from([None, 0.25, 0.5, 0.7, 1.0]),
            pad=st.lists(st.integers(-3, 3), max_size=3), nopad=bools, title=st.sampled_from([None, 'T']), xgiven=bools, ygiven=bools, alpha=bools), n=400, shards=4, mult=20, rule='a non-square grid or hidden dimensions')
def grid(c, ctx):
    ax = Axes()
    seen = []

    def g(p):
        seen.append(np.array(p, float).tolist())
        return f(p)

    class P(FunctionProblem):
        bounds = (-2.0, 3.0)
    prob = P(g, True)
    xl, yl = (c['lo'], c['lo'] + c['wx']), (c['lo2'], c['lo2'] + c['wy'])
    pad = None if c['nopad'] else np.array(c['pad'], dtype=float)
    gran = c['gran']
    kw = {'alpha': 0.5} if c['alpha'] and c['kind'] == 'surface' else {}
    if c['via'] == 'problem':
        a = {}
        if c['xgiven']:
            a['xlim'] = xl
        else:
            xl = (-2.0, 3.0)
        if c['ygiven']:
            a['ylim'] = yl
        else:
            yl = (-2.0, 3.0)
        r = rp.plot_2d_problem(prob, kind=c['kind'], ax=ax, granularity=gran, title=c['title'], pad=pad, **a, **kw)
        gran = gran or 5.0 / 50
    else:
        gran = gran or 0.5
        r = (rp.plot_2d_function if c['kind'] == 'surface' else rp.plot_2d_contour)(g, xl, yl, gran, ax=ax, title=c['title'], pad=pad, **kw)
    check(r == 'drawn', 'the drawn object is not returned: %r', r)
    check(len(ax.calls) == 1 and ax.calls[0][0] == c['kind'], 'drew %r', [k[0] for k in ax.calls])
    _, X, Y, Z, k = ax.calls[0]
    check(k == kw, 'keyword arguments %r, expected %r', k, kw)
    x, y = np.arange(xl[0], xl[1], gran), np.arange(yl[0], yl[1], gran)
    hidden = [] if pad is None else pad.tolist()
    want = np.array([[f([p, q] + hidden) for p in x] for q in y])
    check(X.shape == Y.shape == Z.shape == want.shape, 'grid of shape %r, expected %r', Z.shape, want.shape)
    check(np.allclose(X, x[None, :], 1e-12, 1e-12) and np.allclose(Y, y[:, None], 1e-12, 1e-12), 'grid points differ')
    check(np.allclose(Z, want, 1e-12, 1e-12), 'heights differ from the function')
    check(all(len(p) == 2 + len(hidden) and p[2:] == hidden for p in seen), 'the function was called with %r', seen[0])
    check(ax.title == c['title'], 'title %r', ax.title)
    ctx.nt(c['wx'] != c['wy'] or len(hidden) > 0)
    ctx.label(c['kind'])
    ctx.label(c['via'])


@M.sub(case(kind=st.sampled_from(['surface', 'contour']), via=st.sampled_from(['problem', 'function']), w=st.integers(2, 4)), n=4, shards=2, mult=8, rule='every case')
def own_axes(c, ctx):
    """Without axes a new figure is created."""
    plt.close('all')
    try:
        if c['via'] == 'problem':
            r = rp.plot_2d_problem(rp.SpheroidProblem(), xlim=(0, c['w']), ylim=(0, 2), kind=c['kind'], granularity=0.5)
        else:
            r = (rp.plot_2d_function if c['kind'] == 'surface' else rp.plot_2d_contour)(f, (0, c['w']), (0, 2), 0.5)
        check(r is not None, 'nothing returned')
        check(len(plt.get_fignums()) == 1, 'figures %r', plt.get_fignums())
        axes = plt.gcf().axes
        check(len(axes) == 1 and (axes[0].name == '3d') == (c['kind'] == 'surface'), 'axes %r', axes)
        ctx.nt()
    finally:
        plt.close('all')
