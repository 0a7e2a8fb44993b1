from common import *
import csv as _csv
import io
import statistics
from leap_ec import probe

M = Module('P23')

fit = st.one_of(eighths, tied, st.integers(-1000, 1000))
hist = st.lists(st.lists(fit, min_size=1, max_size=6), min_size=1, max_size=7)
long_hist = st.one_of(hist, hist, hist, st.lists(st.lists(fit, min_size=1, max_size=3), min_size=20, max_size=40),
                      st.lists(st.lists(fit, min_size=30, max_size=70), min_size=2, max_size=3))
steps = st.one_of(st.none(), st.none(), st.lists(st.integers(0, 12), min_size=40, max_size=40))
names = st.lists(st.sampled_from(['n1', 'note', 'desc', 'z']), max_size=3, unique=True)


def restored():
    check(str(np.array([1, 2])) == '[1 2]' and repr(np.array([1, 2])) == 'array([1, 2])', 'numpy printing was not restored')


def near(a, b):
    """Text of a computed statistic against its exact value."""
    b = float(b)
    if math.isinf(b):
        return float(a) == b
    return abs(float(a) - b) <= 1e-7 * max(1.0, abs(b))


@M.sub(case(hist=long_hist, at=steps, wide=bools, maximize=bools, header=bools, job=st.one_of(st.none(), st.integers(0, 9), st.just('j7'), st.just('')), notes=names, extra=names,
            shift=st.sampled_from([None, None, None, 1e8, -1e8, 1e17, 'inf']), modulo=st.integers(1, 4), start=st.integers(0, 5), comment=st.sampled_from([None, 'hello', 'two\nlines']), deflt=bools), n=900, shards=2,
       rule='at least two measured generations and one unmeasured')
def fitness_stats(c, ctx):
    cx = {'leap': {'generation': 0}}
    s = io.StringIO()
    notes = {n: 'v%d' % i for i, n in enumerate(c['notes'])}
    def metric(k):
        if c['wide']:
            return lambda p: 'x%d' % (k + len(p)) * 30
        return lambda p: k + len(p)
    extra = {('m_' + n): metric(k) for k, n in enumerate(c['extra'])}
    kw = {}
    if c['modulo'] > 1:
        kw['modulo'] = c['modulo']
    if c['job'] is not None:
        kw['job'] = c['job']
    if notes:
        kw['notes'] = dict(notes)
    if extra:
        kw['extra_metrics'] = extra
    if c['comment']:
        kw['comment'] = c['comment']
    if not c['header']:
        kw['header'] = False
    p = probe.FitnessStatsCSVProbe(stream=s, context=cx, **kw)
    cols = (['job'] if c['job'] is not None else []) + list(notes) + \
        ['step', 'bsf', 'mean_fitness', 'std_fitness', 'min_fitness', 'max_fitness'] + list(extra)
    want, seen = [], []
    for k, h in enumerate(c['hist']):
        if c['shift'] == 'inf':
            h = [math.copysign(math.inf, x) if abs(x) > 100 else x for x in h]
        elif c['shift']:
            h = [x + c['shift'] if c['shift'] < 1e10 else x * c['shift'] for x in h]
        g = c['start'] + k if c['at'] is None else c['at'][k]
        cx['leap']['generation'] = g
        pop = pop_with(h, c['maximize'])
        before = [snap(i) for i in pop]
        lst = list(pop)
        with np.errstate(all='ignore'):
            out = p(lst)
        check(out is lst and same_list(lst, pop) and [snap(i) for i in pop] == before, 'probe interfered with the population')
        seen += h
        if g % c['modulo'] == 0:
            m = sum(map(float, h)) / len(h)
            wild = math.isinf(max(map(abs, h)))            # mean and deviation are not judged
            want.append(([str(c['job'])] if c['job'] is not None else []) + list(notes.values()) +
                        [g, max(seen) if c['maximize'] else min(seen), None if wild else m, None if wild else math.sqrt(sum((x - m) ** 2 for x in h) / len(h)), min(h), max(h)]
                        + [f(pop) for f in extra.values()])
        restored()
    lines = s.getvalue().split('\n')
    check(lines[-1] == '', 'last line not terminated')
    lines = lines[:-1]
    if c['header']:
        if c['comment']:
            for l in c['comment'].split('\n'):
                check(lines[0] == '# ' + l, 'comment line %r', lines[0])
                lines = lines[1:]
        check(lines[0].split(', ') == cols, 'header %r, expected %r', lines[0], cols)
        lines = lines[1:]
    check(len(lines) == len(want), '%d rows for %d measured generations', len(lines), len(want))
    for l, w in zip(lines, want):
        got = l.split(', ')
        check(len(got) == len(w), 'row %r, expected %r', got, w)
        for a, b, name in zip(got, w, cols):
            check(b is None or (a == b if isinstance(b, str) else near(a, b)), 'column %s: %r, expected %r', name, a, b)
    ctx.nt(2 <= len(want) < len(c['hist']))
    ctx.label('minimise with modulo', not c['maximize'] and c['modulo'] > 1)


@M.sub(case(hist=long_hist, at=steps, odd=st.lists(st.sampled_from(['', 0, 0.0, None, False, (), [], 'a,b', 'q"q', 'two\nlines', np.float64(2.5), 'x' * 300]), min_size=3, max_size=3), maximize=bools, header=bools, job=st.one_of(st.none(), st.integers(0, 9)), notes=names,
            attrs=st.lists(st.sampled_from(['foo', 'bar', 'baz']), max_size=3, unique=True), best=bools, dofit=bools, dogen=bools,
            stream=bools, df=bools, start=st.integers(0, 5), glen=upto(1, 60, 200, 1200), two=bools), n=800, shards=2,
       rule='at least two populations with at least one optional column')
def attributes(c, ctx):
    cx = {'leap': {'generation': 0}}
    if not c['stream'] and not c['df']:
        check(raises(ValueError, lambda: probe.AttributesCSVProbe(stream=None, do_dataframe=False, context=cx)), 'useless probe accepted')
        return
    s = io.StringIO() if c['stream'] else None
    notes = {n: 'v%d' % i for i, n in enumerate(c['notes'])}
    p = probe.AttributesCSVProbe(attributes=c['attrs'], stream=s, do_dataframe=c['df'], best_only=c['best'], header=c['header'],
                                 do_fitness=c['dofit'], do_genome=c['dogen'], notes=dict(notes), job=c['job'], context=cx)
    want = []
    order = (['job'] if c['job'] is not None else []) + list(notes) + ['step'] + c['attrs'] + (['fitness'] if c['dofit'] else []) + \
        (['genome'] if c['dogen'] else [])

    def genome(k, j):
        g = np.arange(c['glen']) + 10000 * k + j
        return np.stack([g, -g]) if c['two'] else g

    def foo(k, j):
        return c['odd'][j] if k == 0 and j < len(c['odd']) else 'f%d' % (100 * k + j)
    for k, h in enumerate(c['hist']):
        g = c['start'] + k if c['at'] is None else c['at'][k]
        cx['leap']['generation'] = g
        pop = pop_with(h, c['maximize'])
        for j, i in enumerate(pop):
            i.genome = genome(k, j)
            i.foo, i.bar, i.baz = foo(k, j), 100 * k + j + 0.5, [k, j]
        before = [snap(i) for i in pop]
        lst = list(pop)
        out = p(lst)
        check(out is lst and same_list(lst, pop) and [snap(i) for i in pop] == before, 'probe interfered with the population')
        restored()
        if c['best']:
            top = max(h) if c['maximize'] else min(h)
            want.append((g, k, [j for j in range(len(h)) if h[j] == top]))
        else:
            want += [(g, k, [j]) for j in range(len(h))]

    def expected(g, k, j):
        row = {'step': g, 'job': c['job'], 'foo': foo(k, j), 'bar': 100 * k + j + 0.5, 'baz': [k, j],
               'fitness': c['hist'][k][j], 'genome': genome(k, j).tolist()}
        row.update(notes)
        return [row[n] for n in order]
    if c['stream']:
        rows = list(_csv.reader(io.StringIO(s.getvalue())))
        if c['header']:
            check(rows[:1] == [order], 'header %r, expected %r', rows[:1], order)
            rows = rows[1:]
        check(len(rows) == len(want), '%d rows, expected %d', len(rows), len(want))
        for r, (g, k, js) in zip(rows, want):
            check(any(r == ['' if x is None else str(x) for x in expected(g, k, j)] for j in js), 'row %r, expected one of %r', r, [expected(g, k, j) for j in js])
    if c['df']:
        d = p.dataframe
        check(list(d.columns) == order and len(d) == len(want), 'data frame columns %r, %d rows', list(d.columns), len(d))
        for r, (g, k, js) in zip(d.itertuples(index=False), want):
            vals = [x.tolist() if isinstance(x, np.ndarray) else x for x in r]
            check(any(vals == expected(g, k, j) for j in js), 'data frame row %r, expected one of %r', vals, [expected(g, k, j) for j in js])
    else:
        check(raises(ValueError, lambda: p.dataframe), 'data frame without data')
    ctx.nt(len(c['hist']) > 1 and (c['attrs'] or c['dofit'] or c['dogen']))
    ctx.label('stream and data frame', c['stream'] and c['df'])


@M.sub(case(fits=st.lists(fit, min_size=1, max_size=5), missing=st.integers(0, 4)), n=150, rule='always')
def missing_attribute(c, ctx):
    cx = {'leap': {'generation': 1}}
    pop = pop_with(c['fits'])
    for i in pop:
        i.foo = 1
    del pop[c['missing'] % len(pop)].__dict__['foo']
    p = probe.AttributesCSVProbe(attributes=['foo'], stream=io.StringIO(), context=cx)
    check(raises(ValueError, lambda: p(pop)), 'missing attribute accepted')
    restored()
    ctx.nt()


@M.sub(case(fits=st.lists(fit, min_size=1, max_size=4), kind=bools, as_list=st.sampled_from([None, True, False]), n=upto(0, 6, 40, 1500), dt=bools, fail=bools), n=300, rule='an array of at least two entries')
def arrays_as_lists(c, ctx):
    """Arrays are written as Python lists unless numpy's own text is asked for, and numpy's printing is left as it was."""
    cx = {'leap': {'generation': 1}}
    pop = pop_with(c['fits'])
    arr = np.arange(c['n']) * (0.5 if c['dt'] else 1)
    kw = {} if c['as_list'] is None else {'numpy_as_list': c['as_list']}
    want = str(arr.tolist()) if c['as_list'] is not False else str(arr)
    s = io.StringIO()
    if c['fail']:
        def bad(p):
            raise ArithmeticError('no metric')
        p = probe.FitnessStatsCSVProbe(stream=s, context=cx, extra_metrics={'m': bad}, **kw)
        check(raises(ArithmeticError, lambda: p(pop)), 'a failing metric was swallowed')
        restored()
        return
    if c['kind']:
        p = probe.FitnessStatsCSVProbe(stream=s, context=cx, extra_metrics={'m': lambda q: arr}, header=False, **kw)
        p(pop)
        text = s.getvalue()
        check(text.endswith(', ' + want + '\n'), 'array metric written as %r, expected %r', text[-200:], want[-200:])
    else:
        for i in pop:
            i.tag = arr
        p = probe.AttributesCSVProbe(['tag'], stream=s, context=cx, **kw)
        p(pop)
        rows = list(_csv.reader(io.StringIO(s.getvalue())))
        check(rows == [['step', 'tag']] + [['1', want]] * len(pop), 'array attribute written as %r, expected %r', rows[1][1][:200], want[:200])
    restored()
    ctx.nt(c['n'] > 1)


@M.sub(case(gens=st.integers(20, 30), n=st.integers(40, 60), best=st.sampled_from([False, False, True])), n=4, mult=6, rule='always')
def long_runs(c, ctx):
    """Nothing is dropped from a long record."""
    cx = {'leap': {'generation': 0}}
    s, t = io.StringIO(), io.StringIO()
    p = probe.AttributesCSVProbe(attributes=['tag'], stream=s, do_dataframe=True, best_only=c['best'], do_fitness=True, context=cx)
    q = probe.FitnessStatsCSVProbe(stream=t, context=cx)
    want = []
    for g in range(c['gens'] * (40 if c['best'] else 1)):
        cx['leap']['generation'] = g
        pop = pop_with([float((7 * i + g) % 101) for i in range(c['n'] if not c['best'] else 3)], True)
        for i, x in enumerate(pop):
            x.tag = 1000 * g + i
        p(pop)
        q(pop)
        keep = [i for i in pop if i.fitness == max(x.fitness for x in pop)][:1] if c['best'] else pop
        want += [(g, i.tag, i.fitness) for i in keep]
    df = p.dataframe
    check(list(zip(df['step'], df['tag'], df['fitness'])) == want, 'data frame of %d rows, expected %d', len(df), len(want))
    rows = [(int(r['step']), int(r['tag']), float(r['fitness'])) for r in _csv.DictReader(io.StringIO(s.getvalue()))]
    check(rows == want, 'stream of %d rows, expected %d', len(rows), len(want))
    check(len(t.getvalue().split('\n')) == g + 3, '%d lines of statistics for %d generations', len(t.getvalue().split('\n')), g + 1)
    ctx.nt()
