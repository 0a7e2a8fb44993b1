from common import *
import os
import tempfile
import matplotlib
matplotlib.use('Agg')
from matplotlib import pyplot as plt
import pandas as pd
from leap_ec.contrib import analysis
from leap_ec.contrib.analysis import CurveAnalyzer, CurvePlotter, auc, max_value, cat_csv_files

M = Module('P43')
M.assumptions = ['Times within a run are distinct; metric values are finite (relative tolerance 1e-9).']

num = st.one_of(st.integers(-400, 400).map(lambda i: i / 8), st.integers(-400, 400).map(lambda i: i / 7))


@st.composite
def tables(draw):
    """Runs of two experiment factors, each a curve over its own times."""
    runs = []
    n = draw(st.integers(1, 6))
    shared = draw(bools)            # experiments number their runs from 0 each, or the numbers are unique
    long = draw(st.integers(0, 5)) == 0
    for j in range(n):
        times = sorted(draw(st.sets(st.integers(0, 12), min_size=1, max_size=6)))
        e = draw(st.sampled_from(['A', 'B', 'C']))
        bsf, avg = [draw(num) for _ in times], [draw(num) for _ in times]
        if long:                    # sixty steps, mostly rising
            times = [3 * i + (i % 4 == 0) for i in range(60)]
            bsf, avg = [b[0] + (i * b[-1] % 17 - 5 if i % 13 == 12 else i * 0.5) / 7 for b in (bsf, avg) for i in range(60)][:60], [avg[0] + i * 0.25 for i in range(60)]
        job = sum(1 for r in runs if r['e'] == e) if shared else draw(st.integers(0, 3)) * 10 + j
        runs.append(dict(job=job, e=e, k=draw(st.integers(1, 2)), t=times, bsf=bsf, avg=avg))
    return runs


def positive(runs):
    """The same runs moved above zero, so that a logarithmic axis can show them."""
    return [dict(r, bsf=[abs(v) + 1 for v in r['bsf']], avg=[abs(v) + 1 for v in r['avg']]) for r in runs]


def frame(runs, perm):
    rows = [dict(job=r['job'], step=t, bsf=b, avg=a, experiment=r['e'], k=r['k'], note='x') for r in runs for t, b, a in zip(r['t'], r['bsf'], r['avg'])]
    order = np.random.RandomState(perm).permutation(len(rows)) if perm else range(len(rows))
    df = pd.DataFrame([rows[i] for i in order])
    return df


def mean_std(v):
    m = sum(v) / len(v)
    s = math.sqrt(sum((x - m) ** 2 for x in v) / (len(v) - 1)) if len(v) > 1 else math.nan
    return m, s


def r_auc(t, v):
    return sum((t[i] - t[i - 1]) * v[i] for i in range(1, len(t)))


def records(df):
    return [dict(r) for r in df.to_dict('records')]


def match(got, want, keys, what):
    """Rows keyed by `keys`, compared numerically."""
    g = {}
    for r in got:
        k = tuple(r[x] for x in keys)
        check(k not in g, '%s: group %r appears twice', what, k)
        g[k] = r
    check(set(g) == set(want), '%s: groups %r, expected %r', what, sorted(g), sorted(want))
    for k, w in want.items():
        for col, v in w.items():
            check(col in g[k], '%s: column %r is missing (%r)', what, col, sorted(g[k]))
            check(close(g[k][col], v, 1e-9, 1e-9), '%s: %r of group %r is %r, expected %r', what, col, k, g[k][col], v)


@M.sub(case(runs=tables(), perm=st.integers(0, 10 ** 6), two=bools, measure=st.sampled_from(['auc', 'max'])), n=260, shards=6, mult=15, rule='an experiment with at least two runs of at least two steps')
def analyzer(c, ctx):
    runs = c['runs']
    df = frame(runs, c['perm'])
    before = df.copy(deep=True)
    ecols = ['experiment', 'k'] if c['two'] else ['experiment']
    ekey = (lambda r: (r['e'], r['k'])) if c['two'] else (lambda r: (r['e'],))
    an = CurveAnalyzer(df, time_col='step', metric_cols=['bsf', 'avg'], experiment_cols=ecols, run_col='job')
    want = {}
    for r in runs:
        for t, b, a in zip(r['t'], r['bsf'], r['avg']):
            q = want.setdefault((t,) + ekey(r), ([], []))
            q[0].append(b)
            q[1].append(a)
    w2 = {}
    for k, (b, a) in want.items():
        (bm, bs), (am, as_) = mean_std(b), mean_std(a)
        w2[k] = {'bsf_mean': bm, 'bsf_std': bs, 'avg_mean': am, 'avg_std': as_}
    match(records(an.avg_curves()), w2, ['step'] + ecols, 'avg_curves')
    name = 'auc' if c['measure'] == 'auc' else 'max_value'
    meas = auc if c['measure'] == 'auc' else max_value
    for col in ('bsf', 'avg'):
        per, grp = {}, {}
        for r in runs:
            v = r_auc(r['t'], r[col]) if c['measure'] == 'auc' else max(r[col])
            per[(r['job'],) + ekey(r)] = {name: v}
            grp.setdefault(ekey(r), []).append(v)
        match(records(an.scalar_metrics_per_run(metric_col=col, scalar_measure=meas)), per, ['job'] + ecols, 'scalar_metrics_per_run')
        gw = {k: dict(zip((name + '_mean', name + '_std'), mean_std(v))) for k, v in grp.items()}
        match(records(an.avg_scalar_metrics(metric_col=col, scalar_measure=meas)), gw, ecols, 'avg_scalar_metrics')
    if c['measure'] == 'auc':
        match(records(an.scalar_metrics_per_run('bsf')), {(r['job'],) + ekey(r): {'auc': r_auc(r['t'], r['bsf'])} for r in runs}, ['job'] + ecols, 'default measure')
    pd.testing.assert_frame_equal(df, before)
    ctx.nt(any(len(v) > 1 for v in grp.values()) and any(len(r['t']) > 1 for r in runs))
    ctx.label('rows shuffled', bool(c['perm']))


@M.sub(case(t=st.lists(st.integers(-20, 60), min_size=1, max_size=8, unique=True), v=st.lists(num, min_size=8, max_size=8), perm=st.integers(0, 10 ** 6), frac=bools), n=500, shards=4, mult=10, rule='at least three unevenly spaced points')
def area(c, ctx):
    t = sorted(c['t'])
    t = [x / 4 for x in t] if c['frac'] else t
    v = c['v'][:len(t)]
    df = pd.DataFrame(dict(time=t, m=v, other=range(len(t))))
    df = df.iloc[np.random.RandomState(c['perm']).permutation(len(t))]
    before = df.copy(deep=True)
    for res in (auc(df, time_col='time', metric_col='m'), auc(time_col='time', metric_col='m')(df)):
        check(close(res['auc'], r_auc(t, v), 1e-9, 1e-9), 'auc %r, expected %r', res['auc'], r_auc(t, v))
    for res in (max_value(df, time_col='time', metric_col='m'), max_value(time_col='time', metric_col='m')(df)):
        check(res['max_value'] == max(v), 'max_value %r, expected %r', res['max_value'], max(v))
    pd.testing.assert_frame_equal(df, before)
    ctx.nt(len(t) > 2 and len({b - a for a, b in zip(t, t[1:])}) > 1)


@M.sub(case(files=st.lists(st.lists(st.tuples(st.integers(0, 9), st.integers(0, 20), num), min_size=1, max_size=5), min_size=1, max_size=4), comment=bools, space=bools,
            order=st.lists(st.integers(0, 3), min_size=1, max_size=6), big=upto(1, 1, 400), ragged=bools), n=150, shards=3, mult=8, rule='at least two files, with comments')
def concatenate(c, ctx):
    with tempfile.TemporaryDirectory() as d:
        paths, rows_of = [], []
        for k, rows in enumerate(c['files']):
            p = os.path.join(d, 'f%d.csv' % k)
            sep = ', ' if c['space'] else ','
            mine = []
            more = c['ragged'] and k % 2
            with open(p, 'w') as f:
                if c['comment']:
                    f.write('# seed=%d\n# note\n' % k)
                f.write(sep.join(['job', 'step', 'bsf', 'experiment'] + (['extra'] if more else [])) + '\n')
                for j, s, b in rows * c['big']:
                    f.write(sep.join([str(j), str(s), repr(b), 'e%d' % k] + (['x%d' % j] if more else [])) + '\n')
                    mine.append((j, s, b, 'e%d' % k, 'x%d' % j if more else None))
            paths.append(p)
            rows_of.append(mine)
        texts = [open(p).read() for p in paths]
        order = [k % len(paths) for k in c['order']]
        df = cat_csv_files([paths[k] for k in order])
        want = [r for k in order for r in rows_of[k]]
        cols = {'job', 'step', 'bsf', 'experiment'} | ({'extra'} if c['ragged'] and any(k % 2 for k in order) else set())
        check(len(df.columns) == len(cols) and set(df.columns) == cols, 'columns %r', list(df.columns))
        got = [(int(r['job']), int(r['step']), float(r['bsf']), r['experiment'], r['extra'] if isinstance(r.get('extra'), str) else None) for r in records(df)]
        check(len(got) == len(want), '%d rows concatenated, expected %d', len(got), len(want))
        for u, v in zip(got, want):
            # pandas' default parser may be off by one unit in the last place
            check(u[:2] == v[:2] and u[3:] == v[3:] and close(u[2], v[2]), 'concatenated row %r, expected %r', u, v)
        check([open(p).read() for p in paths] == texts, 'the input files were changed')
    ctx.nt(len(c['files']) > 1 and c['comment'])


def want_curves(runs, col):
    return [[[float(t), v] for t, v in zip(r['t'], r[col])] for r in runs]


def want_avg(runs, col):
    acc = {}
    for r in runs:
        for t, v in zip(r['t'], r[col]):
            acc.setdefault(r['e'], {}).setdefault(t, []).append(v)
    return {e: {float(t): mean_std(v) for t, v in sorted(q.items())} for e, q in acc.items()}


def check_lines(lines, want, what):
    got = [np.asarray(l.get_xydata(), dtype=float).tolist() for l in lines]
    check(len(got) == len(want), '%s: %d lines drawn, expected %d', what, len(got), len(want))
    for a, b in zip(sorted(got), sorted(want)):
        check(len(a) == len(b) and all(close(x, y, 1e-9, 1e-9) for p, q in zip(a, b) for x, y in zip(p, q)), '%s: line %r, expected %r', what, a, b)


def check_avg(ax, want, error, what):
    means = [[[t, m] for t, (m, s) in q.items()] for q in want.values()]
    if not error:
        check_lines(ax.lines, means, what)
        return
    from matplotlib.container import ErrorbarContainer
    bars = [k for k in ax.containers if isinstance(k, ErrorbarContainer)]
    check_lines([k.lines[0] for k in bars], means, what)
    left = {(round(t, 6), round(m, 6)): [s for q in want.values() for t2, (m2, s) in q.items() if round(t2, 6) == round(t, 6) and round(m2, 6) == round(m, 6)]
            for q in want.values() for t, (m, _) in q.items()}
    for k in bars:
        xy = np.asarray(k.lines[0].get_xydata(), float)
        segs = [np.asarray(s, float) for col in k.lines[2] for s in col.get_segments()]
        stds = []
        for sg in segs:
            if len(sg) == 2 and np.all(np.isfinite(sg)):
                stds.append((float(sg[0][0]), float((sg[0][1] + sg[1][1]) / 2), abs(float(sg[1][1] - sg[0][1])) / 2))
        for t, m, s in stds:
            opts = [x for (a, b), l in left.items() if abs(a - t) < 1e-5 and abs(b - m) < 1e-5 for x in l]
            check(any(close(s, x, 1e-6, 1e-7) for x in opts), '%s: error bar of half-height %r at %r, expected one of %r', what, s, (t, m), opts)
        finite = sum(1 for t, m in xy.tolist() if any(not math.isnan(x) for x in left.get((round(t, 6), round(m, 6)), [])))
        check(len(stds) <= finite or len(bars) > 1, '%s: %d error bars, expected at most %d', what, len(stds), finite)
    n = sum(1 for k in bars for col in k.lines[2] for sg in col.get_segments() if len(sg) == 2 and np.all(np.isfinite(np.asarray(sg, float))))
    check(n == sum(1 for q in want.values() for m, s in q.values() if not math.isnan(s)), '%s: %d error bars drawn', what, n)


def check_boxes(ax, runs, col, measure, what):
    groups = {}
    for r in runs:
        groups.setdefault(r['e'], []).append(r_auc(r['t'], r[col]) if measure is auc else max(r[col]))
    ys = [(np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)) for l in ax.lines]
    for i, e in enumerate(sorted(groups), 1):
        v = np.array(groups[e])
        med = float(np.median(v))
        ok = any(len(x) == 2 and len(y) == 2 and abs(x.mean() - i) < 1e-6 and np.allclose(y, med, 1e-9, 1e-9) for x, y in ys)
        check(ok, '%s: no median line at %r for experiment %r', what, med, e)
        q = np.percentile(v, [25, 75])
        ok = any(len(x) == 5 and abs((x.min() + x.max()) / 2 - i) < 1e-6 and np.allclose([y.min(), y.max()], q, 1e-9, 1e-9) for x, y in ys)
        check(ok, '%s: no box from %r for experiment %r', what, q.tolist(), e)
    labels = [t.get_text() for t in ax.get_xticklabels()]
    check(len(labels) == len(groups) and all(e in l for e, l in zip(sorted(groups), labels)), '%s: tick labels %r', what, labels)


@M.sub(case(runs=tables(), which=st.sampled_from(['curves', 'avg', 'avg', 'bar']), col=st.sampled_from(['bsf', 'avg']), title=st.sampled_from(['title', 'T2']), xlabel=st.sampled_from([None, 'time']),
            ylabel=st.sampled_from([None, 'fitness']), ylog=bools, error=bools, ylim=st.sampled_from([None, (-7.0, 9.0), (0.0, 4.0), (2.0, 60.0)]), meas=st.sampled_from(['auc', 'max']), own=bools), n=64, shards=8, mult=4, rule='at least two curves')
def plots(c, ctx):
    runs = positive(c['runs']) if c['ylog'] else c['runs']
    df = frame(runs, 0)
    before = df.copy(deep=True)
    an = CurveAnalyzer(df, time_col='step', metric_cols=['bsf', 'avg'], experiment_cols=['experiment'], run_col='job')
    pl = CurvePlotter(an)
    if c['own']:
        fig, ax = None, None
    else:
        fig, ax = plt.subplots()
    kw = dict(ax=ax)
    if c['which'] != 'bar':
        kw.update({k: c[k] for k in ('xlabel', 'ylabel') if c[k]}, **({'ylog': True} if c['ylog'] else {}))
    try:
        if c['which'] == 'curves':
            pl.plot_curves(c['col'], c['title'], **kw)
        elif c['which'] == 'avg':
            pl.plot_avg_curves(c['col'], c['title'], c['error'], c['ylim'], **kw)
        elif c['meas'] == 'auc':
            pl.plot_scalars_bar(c['col'], title=c['title'], **kw)
        else:
            pl.plot_scalars_bar(c['col'], scalar_measure=max_value, title=c['title'], **kw)
        if ax is None:
            check(len(plt.get_fignums()) == 1 and len(plt.gcf().axes) == 1, 'figures %r', plt.get_fignums())
            ax = plt.gcf().axes[0]
        check(ax.get_title() == c['title'], 'title %r, expected %r', ax.get_title(), c['title'])
        if c['which'] == 'curves':
            check_lines(ax.lines, want_curves(runs, c['col']), 'curves')
        elif c['which'] == 'avg':
            check_avg(ax, want_avg(runs, c['col']), c['error'], 'averages')
            if c['ylim'] and not c['ylog']:
                check(all(close(a, b) for a, b in zip(ax.get_ylim(), c['ylim'])), 'y limits %r, expected %r', ax.get_ylim(), c['ylim'])
        else:
            check_boxes(ax, runs, c['col'], auc if c['meas'] == 'auc' else max_value, 'box plot')
        if c['which'] != 'bar':
            check((ax.get_yscale() == 'log') == c['ylog'] and ax.get_yscale() in ('log', 'linear'), 'y scale %r', ax.get_yscale())
            check(c['xlabel'] is None or ax.get_xlabel() == c['xlabel'], 'x label %r', ax.get_xlabel())
            check(c['ylabel'] is None or ax.get_ylabel() == c['ylabel'], 'y label %r', ax.get_ylabel())
            leg = ax.get_legend()
            exps = {r['e'] for r in runs}
            check(leg is not None and len(leg.get_texts()) == len(exps) and all(sum(e in t.get_text() for t in leg.get_texts()) == 1 for e in exps), 'legend')
        pd.testing.assert_frame_equal(df, before)
        ctx.nt(len(runs) > 1)
    finally:
        plt.close('all')


@M.sub(case(runs=tables(), which=st.sampled_from(['all', 'curves', 'avg-curves', 'auc']), col=st.sampled_from(['bsf', 'mean_fitness', None]), title=st.sampled_from([None, 'T2']), modulo=st.sampled_from([None, 1, 2, 3]),
            ylog=bools, error=st.sampled_from([None, True, False]), ylim=st.sampled_from([None, (-7.0, 9.0), (0.0, 4.0)]), time=bools, comment=bools), n=64, shards=8, mult=4, rule='at least two curves')
def plot_commands(c, ctx):
    """The plot commands draw the file they are given."""
    from click.testing import CliRunner
    which = c['which']
    table = runs = positive(c['runs']) if c['ylog'] else c['runs']
    m = (c['modulo'] or 1) if which == 'all' else 1
    runs = [dict(r, t=[t for t in r['t'] if t % m == 0], **{k: [v for t, v in zip(r['t'], r[k]) if t % m == 0] for k in ('bsf', 'avg')}) for r in runs]
    runs = [r for r in runs if r['t']]
    if not runs:
        return
    old = plt.show
    shown = []
    plt.close('all')
    try:
        plt.show = lambda *a, **k: shown.append([f.axes for f in map(plt.figure, plt.get_fignums())])
        with tempfile.TemporaryDirectory() as d:
            path = os.path.join(d, 'curves.csv')
            df = frame(table, 0).rename(columns={'avg': 'mean_fitness', 'step': 'generation' if c['time'] else 'step'})
            for col in ('std_fitness', 'min_fitness', 'max_fitness'):
                df[col] = 0.0
            with open(path, 'w') as f:
                if c['comment']:
                    f.write('# a comment\n')
                df.to_csv(f, index=False)
            args = ['plot', which, path]
            if c['col']:
                args += ['--metric-col', c['col']]
            if c['title'] and which != 'all':
                args += ['--title', c['title']]
            if c['time']:
                args += ['--time-col', 'generation']
            if c['ylog'] and which != 'auc':
                args += ['--ylog']
            if which in ('all', 'avg-curves'):
                if c['error'] is not None:
                    args += ['--error' if c['error'] else '--no-error']
                if c['ylim']:
                    args += ['--ylim', str(c['ylim'][0]), str(c['ylim'][1])]
            if which == 'all' and c['modulo']:
                args += ['--modulo', str(c['modulo'])]
            text = open(path).read()
            res = CliRunner().invoke(analysis.cli, args)
            check(res.exit_code == 0, '%r failed: %r', args, res.exception)
            check(open(path).read() == text, 'the file was changed')
        check(len(shown) == 1, 'shown %d times', len(shown))
        axes = [a for fig in shown[0] for a in fig]
        check(len(axes) == (3 if which == 'all' else 1), '%d axes', len(axes))
        axes = sorted(axes, key=lambda a: a.get_position().x0)
        col = 'avg' if c['col'] == 'mean_fitness' else 'bsf'
        parts = dict(zip(['curves', 'avg-curves', 'auc'], axes)) if which == 'all' else {which: axes[0]}
        for name, ax in parts.items():
            if name == 'curves':
                check_lines(ax.lines, want_curves(runs, col), 'plot curves')
            elif name == 'avg-curves':
                check_avg(ax, want_avg(runs, col), c['error'] is not False, 'plot avg-curves')
                if c['ylim'] and not c['ylog']:
                    check(all(close(a, b) for a, b in zip(ax.get_ylim(), c['ylim'])), 'y limits %r, expected %r', ax.get_ylim(), c['ylim'])
            else:
                check_boxes(ax, runs, col, auc, 'plot auc')
            if name != 'auc':
                check((ax.get_yscale() == 'log') == c['ylog'], '%s: y scale %r', name, ax.get_yscale())
            if c['title'] and which != 'all':
                check(ax.get_title() == c['title'], 'title %r', ax.get_title())
        ctx.nt(len(runs) > 1)
        ctx.label(which)
    finally:
        plt.show = old
        plt.close('all')


@M.sub(case(runs=tables(), split=st.integers(0, 5)), n=32, shards=8, mult=4, rule='at least two files')
def analyze_command(c, ctx):
    """The command line combines the files and writes the three summaries."""
    from click.testing import CliRunner
    runs = c['runs']
    cwd = os.getcwd()
    with tempfile.TemporaryDirectory() as d:
        os.chdir(d)
        try:
            groups = [runs[:c['split']], runs[c['split']:]]
            names = []
            for k, g in enumerate(groups):
                if not g:
                    continue
                df = frame(g, 0).rename(columns={'avg': 'mean_fitness'})
                for col in ('std_fitness', 'min_fitness', 'max_fitness'):
                    df[col] = 0.0
                df.to_csv('in%d.csv' % k, index=False)
                names.append('in%d.csv' % k)
            res = CliRunner().invoke(analysis.cli, ['analyze'] + names)
            check(res.exit_code == 0, 'analyze failed: %r', res.exception)
            comb = pd.read_csv('curves_combined.csv')
            want = sorted((r['job'], t, r['e'], v) for r in runs for t, v in zip(r['t'], r['bsf']))
            got = sorted(zip(comb.job, comb.step, comb.experiment, comb.bsf))
            check(len(got) == len(want) and all(a[:3] == b[:3] and close(a[3], b[3]) for a, b in zip(got, want)), 'combined curves')
            acc, per, grp = {}, {}, {}
            for r in runs:
                for t, v in zip(r['t'], r['bsf']):
                    acc.setdefault((t, r['e']), []).append(v)
                a = r_auc(r['t'], r['bsf'])
                per[(r['job'], r['e'])] = {'auc': a}
                grp.setdefault((r['e'],), []).append(a)
            match(records(pd.read_csv('avg_curves_by_experiment.csv')), {k: dict(zip(('bsf_mean', 'bsf_std'), mean_std(v))) for k, v in acc.items()}, ['step', 'experiment'], 'avg_curves_by_experiment')
            match(records(pd.read_csv('scalars_by_run.csv')), per, ['job', 'experiment'], 'scalars_by_run')
            match(records(pd.read_csv('avg_scalars_by_experiment.csv')), {k: dict(zip(('auc_mean', 'auc_std'), mean_std(v))) for k, v in grp.items()}, ['experiment'], 'avg_scalars_by_experiment')
        finally:
            os.chdir(cwd)
    ctx.nt(len(names) > 1)


@M.sub(case(x=st.just(0)), n=1, mult=1, rule='always')
def average_scalar_plot(c, ctx):
    """The average scalar measure against an experiment variable."""
    rows = [dict(job=j, step=s, bsf=float(s * j), k=k) for k in (1, 2) for j in (1, 2) for s in range(3)]
    pl = CurvePlotter(CurveAnalyzer(pd.DataFrame(rows), metric_cols=['bsf'], experiment_cols=['k']))
    try:
        pl.plot_avg_scalars(auc, ['k'])
    except Exception as e:
        raise Violation('plot_avg_scalars cannot be called: %s' % e)
    finally:
        plt.close('all')
    ctx.nt()
