from common import *
import os
import shutil
import signal
import tempfile
from leap_ec import ops
from leap_ec.problem import ExternalProcessProblem

M = Module('P28')
M.boost = 2
M.assumptions = ['Programs terminate every line they print with a newline, as the example programs do.',
                 'Input rows are compared after splitting into lines, so a final newline on the input is optional.']

gene = st.one_of(st.integers(-10 ** 9, 10 ** 9), st.floats(allow_nan=False, allow_infinity=False, width=64), st.booleans(),
                 st.text('abcXYZ 01_-+', min_size=1, max_size=4))
# values a program may print, and how
val = st.one_of(st.floats(allow_nan=False, width=64), st.integers(-10 ** 15, 10 ** 15).map(float), infs)
fmt = st.sampled_from(['%r', '%.17g', ' %r ', '%.17e'])

ECHO = 'cat > "$1/in.$$"; ls "$1" > /dev/null; cat "$1/out.$(ls "$1" | grep -c "^in\\.")" 2>/dev/null; [ -n "$3" ] && head -c "$3" /dev/zero >&2; exit "$2"'


class Box:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='p28_')
        signal.signal(signal.SIGALRM, self.boom)
        signal.alarm(60)
        return self

    def boom(self, *a):
        raise Violation('evaluation through the external program did not return within 60 s')

    def __exit__(self, *a):
        signal.alarm(0)
        shutil.rmtree(self.d, ignore_errors=True)

    def problem(self, code=0, stderr=0, maximize=True, script=ECHO):
        args = ['-c', script, 'sh', self.d, str(code), str(stderr) if stderr else '']
        p = ExternalProcessProblem('/bin/sh', maximize, args=args)
        args[:] = ['-c', 'exit 9']      # the caller's list is the caller's
        return p

    def out(self, k, text):
        with open(os.path.join(self.d, 'out.%d' % k), 'w') as f:
            f.write(text)

    def ins(self):
        """Inputs received, one text per process started (unordered)."""
        return [open(os.path.join(self.d, n)).read() for n in os.listdir(self.d) if n.startswith('in.')]


def rows(text):
    return text.split('\n')[:-1] if text.endswith('\n') else text.split('\n')


def eq(a, b):
    return float(a) == b or (math.isnan(float(a)) and math.isnan(b))


@M.sub(case(xs=st.lists(st.lists(gene, min_size=1, max_size=4), min_size=1, max_size=6), vals=st.lists(st.tuples(val, fmt), min_size=6, max_size=6), stderr=st.sampled_from([0, 0, 0, 300000]),
            mx=bools, asarray=bools, route=st.sampled_from(['multi', 'single', 'individual', 'grouped']), chunk=st.integers(0, 7)), n=400, shards=8, mult=8, rule='at least two phenomes of at least two genes')
def round_trip(c, ctx):
    xs = c['xs']
    with Box() as b:
        p = b.problem(stderr=c['stderr'], maximize=c['mx'])
        check(bool(p.maximize) == c['mx'] and p.worse_than(1.0, 2.0) == c['mx'], 'direction')
        arr = [np.array([float(i) + 0.5 for i in range(len(x))]) if c['asarray'] else x for x in xs]
        want = [','.join(str(g) for g in x) for x in arr]
        vals = [v for v, _ in c['vals']][:len(xs)]
        text = [f % v for v, f in c['vals']][:len(xs)]
        route = c['route']
        if route == 'multi':
            b.out(1, ''.join(t + '\n' for t in text))
            got = p.evaluate_multiple(arr)
            groups = [want]
        elif route == 'grouped':
            n = c['chunk'] or None
            groups = [want[i:i + (n or len(want))] for i in range(0, len(want), n or len(want))]
            i = 0
            for k, g in enumerate(groups, 1):
                b.out(k, ''.join(t + '\n' for t in text[i:i + len(g)]))
                i += len(g)
            pop = [Individual(x, decoder=IdentityDecoder(), problem=p) for x in arr]
            res = ops.grouped_evaluate(pop, max_individuals_per_chunk=n)
            check(same_list(res, pop), 'group evaluation returned other individuals')
            got = [i.fitness for i in pop]
        else:
            groups = [[w] for w in want]
            for k, t in enumerate(text, 1):
                b.out(k, t + '\n')
            if route == 'single':
                got = [p.evaluate(x) for x in arr]
            else:
                pop = [Individual(x, decoder=IdentityDecoder(), problem=p) for x in arr]
                got = [i.evaluate() for i in pop]
                check(all(eq(i.fitness, v) for i, v in zip(pop, vals)), 'fitness stored')
        check(len(got) == len(vals) and all(eq(g, v) for g, v in zip(got, vals)), '%s: program printed %r, fitnesses %r', route, text, got)
        ins = sorted(b.ins())
        check(len(ins) == len(groups), 'program started %d times for %d groups', len(ins), len(groups))
        check(sorted(rows(t) for t in ins) == sorted(groups), '%s: program received %r, expected %r', route, ins, groups)
    ctx.nt(len(xs) > 1 and len(xs[0]) > 1)
    ctx.label(route, True)


@M.sub(case(k=st.integers(1, 5), code=st.sampled_from([0, 0, 1, 2, 7, 255, 'kill']), extra=st.integers(-5, 3), bad=st.sampled_from([None, None, 'x', '1,2', '1 2', '']), pos=st.integers(0, 4),
            route=st.sampled_from(['multi', 'grouped', 'single'])), n=300, shards=8, mult=6, rule='the program misbehaves')
def faults(c, ctx):
    k = 1 if c['route'] == 'single' else c['k']
    n = max(0, k + c['extra'])
    lines = [repr(float(i)) for i in range(n)]
    bad = c['bad'] if n else None
    if bad is not None:
        lines[c['pos'] % n] = bad
    wrong = c['code'] != 0 or n != k or bad is not None
    with Box() as b:
        p = b.problem() if c['code'] != 'kill' else b.problem(script=ECHO.replace('exit "$2"', 'kill -9 $$'))
        if c['code'] != 'kill':
            p = b.problem(code=c['code'])
        b.out(1, ''.join(l + '\n' for l in lines))
        xs = [[float(i), 2.0] for i in range(k)]
        pop = [Individual(np.array(x), decoder=IdentityDecoder(), problem=p) for x in xs]
        try:
            if c['route'] == 'multi':
                got = p.evaluate_multiple(xs)
            elif c['route'] == 'single':
                got = [pop[0].evaluate()]
            else:
                ops.grouped_evaluate(pop)
                got = [i.fitness for i in pop]
            err = None
        except Exception as e:
            err = e
        if wrong:
            check(err is not None, 'exit code %s, %d lines (%r) for %d phenomes was accepted as %r', c['code'], n, lines, k, got if err is None else None)
            if c['code'] or n != k and bad is None:
                check(isinstance(err, RuntimeError), 'failure reported as %r', err)
            check(all(i.fitness is None for i in pop), 'fitness assigned despite the failure: %r', [i.fitness for i in pop])
        else:
            check(err is None, 'well-behaved program raised %r', err)
            check([float(g) for g in got] == [float(i) for i in range(k)], 'fitnesses %r', got)
    ctx.nt(wrong)
    ctx.label('exit code', c['code'] != 0)
    ctx.label('wrong count', n != k)
    ctx.label('not a number', bad is not None)


@M.sub(case(k=st.integers(2000, 9000), w=st.integers(2, 8), stderr=bools), n=12, shards=6, mult=4, rule='always (input and output exceed a pipe buffer)')
def large(c, ctx):
    """The program answers line by line while it is still being fed."""
    script = "tee \"$1/in.1\" | awk -F, '{ printf \"%d\\n\", $1 * 2" + (' ; print "noise noise noise noise noise" > "/dev/stderr"' if c['stderr'] else '') + " }'"
    with Box() as b:
        p = b.problem(script=script)
        xs = [[i] + [0.123456789] * c['w'] for i in range(c['k'])]
        got = p.evaluate_multiple(xs)
        check(len(got) == c['k'] and all(g == 2 * i for i, g in enumerate(got)), 'wrong fitnesses for %d phenomes', c['k'])
        check(rows(b.ins()[0]) == [','.join(map(str, x)) for x in xs], 'input differs')
    ctx.nt(True)
