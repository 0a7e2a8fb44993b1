"""Property-based testing engine.

A property module (props/pNN_*.py) registers *sub-checks* with @sub(...).  A
sub-check is a Hypothesis strategy that produces a plain JSON-able `case` and a
function check(case, ctx) that drives the real code in /repo and raises (any
exception) when the property is violated on that case.  The engine

  * runs the sub-checks (sharded over worker processes), every random choice
    being a function of VERIF_SEED and the case,
  * shrinks a failure with Hypothesis and writes the minimal case to a replay
    file, which `run.py <id> --replay FILE` re-executes without Hypothesis,
  * counts evaluations / distinct non-trivial cases and writes the evidence.

Exit codes: 0 held, 1 violation (with VIOLATION line), 2 harness error.
"""
import hashlib
import importlib
import json
import math
import os
import random
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'

# Hypothesis lives in the tooling venv; numpy & co. must come from the repo's
# own environment, so the tooling path is appended last and then removed.
sys.path.append(_VT)
import hypothesis                                            # noqa: E402
from hypothesis import HealthCheck, Phase, given, settings   # noqa: E402
from hypothesis import strategies as st                      # noqa: E402
import hypothesis.internal.conjecture.engine as _hce         # noqa: E402
sys.path.remove(_VT)

import numpy as np                                           # noqa: E402

_hce.MAX_SHRINKING_SECONDS = 40          # a shrink budget, not a verdict
CASE_TIMEOUT = int(os.environ.get('VERIF_CASE_TIMEOUT', '60'))
MEM_LIMIT = 7 << 29                       # 3.5 GB per worker
QUICK = int(os.environ.get('VERIF_QUICK_FACTOR', '6'))


class Hang(BaseException):
    """A single case (normally milliseconds) did not finish in CASE_TIMEOUT."""


class Violation(AssertionError):
    pass


class Ctx:
    """Per-case collector: what class of input was this?"""

    def __init__(self):
        self.nontrivial = False
        self.labels = set()

    def nt(self, cond=True, label=None):
        if cond:
            self.nontrivial = True
            if label:
                self.labels.add(label)

    def label(self, name, cond=True):
        if cond:
            self.labels.add(name)


class Sub:
    def __init__(self, name, strategy, fn, n, examples, mult, rule, shards):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.n, self.examples, self.mult = n, examples, mult
        self.rule, self.shards = rule, shards


class Module:
    """What a property module declares."""

    def __init__(self, pid):
        self.pid = pid
        self.subs = []
        self.assumptions = []
        self.boost = 1          # more cases in the quick tier, for cheap checks

    def sub(self, strategy, n=200, examples=(), mult=20, rule='', name=None,
            shards=1):
        def deco(fn):
            self.subs.append(Sub(name or fn.__name__, strategy, fn, n,
                                 list(examples), mult, rule, shards))
            return fn
        return deco


def canon(case):
    return json.dumps(case, sort_keys=True)


def normalise(case):
    return json.loads(json.dumps(case))


def _seed_all(case):
    s = case.get('seed', 0) if isinstance(case, dict) else 0
    h = int(hashlib.sha256(canon(s).encode()).hexdigest()[:8], 16)
    np.random.seed(h)
    random.seed(h)


def _alarm(signum, frame):
    raise Hang('case did not finish within %d s' % CASE_TIMEOUT)


def run_case(sub, case, ctx):
    """Run one case with the RNGs seeded from it, and reset library globals."""
    _seed_all(case)
    from leap_ec.global_vars import context
    saved = dict(context)
    saved_leap = dict(context.get('leap', {}))
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with np.errstate(all='ignore'):
                sub.fn(case, ctx)
    finally:
        signal.alarm(0)
        context.clear()
        context.update(saved)
        context['leap'] = saved_leap


def run_shard(sub, seed_value, n, with_examples):
    """Run one shard; returns a result dict."""
    res = {'sub': sub.name, 'evals': 0, 'nt': set(), 'labels': {},
           'samples': [], 'failure': None, 'error': None, 'wall': 0.0}
    t0 = time.time()
    failure = {}

    def body(case):
        case = normalise(case)
        ctx = Ctx()
        res['evals'] += 1
        try:
            run_case(sub, case, ctx)
        except hypothesis.errors.UnsatisfiedAssumption:
            res['evals'] -= 1
            raise
        except hypothesis.errors.StopTest:
            raise
        except Hang as e:
            failure['case'], failure['tb'] = case, 'Hang: ' + str(e)
            raise
        except BaseException as e:
            if isinstance(e, KeyboardInterrupt):
                raise
            failure['case'] = case
            failure['tb'] = traceback.format_exc()
            if not isinstance(e, Exception):
                # SystemExit and the like escape the code under test
                raise Violation(repr(e)) from e
            raise
        for l in ctx.labels:
            res['labels'][l] = res['labels'].get(l, 0) + 1
        if ctx.nontrivial:
            c = canon(case)
            h = hashlib.sha256(c.encode()).hexdigest()[:16]
            if h not in res['nt']:
                res['nt'].add(h)
                if len(res['samples']) < 2 and len(c) < 1500:
                    res['samples'].append(case)

    try:
        if with_examples:
            for ex in sub.examples:
                body(ex)
        phases = [Phase.generate, Phase.target]
        if not os.environ.get('VERIF_NOSHRINK'):
            phases.append(Phase.shrink)
        test = given(sub.strategy)(body)
        test = settings(max_examples=n, deadline=None, database=None,
                        phases=phases, report_multiple_bugs=False,
                        print_blob=False,
                        suppress_health_check=list(HealthCheck))(test)
        test = hypothesis.seed(seed_value)(test)
        test()
    except BaseException as e:
        if not failure:
            res['error'] = traceback.format_exc()
        if isinstance(e, KeyboardInterrupt):
            raise
    if failure:
        res['failure'] = dict(failure)
    res['nt'] = sorted(res['nt'])
    res['wall'] = time.time() - t0
    return res


_MOD = None


def _worker(task):
    i, seed_value, n, with_examples = task
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    except Exception:
        pass
    devnull = open(os.devnull, 'w')
    old = sys.stdout
    sys.stdout = devnull
    try:
        return i, run_shard(_MOD.subs[i], seed_value, n, with_examples)
    finally:
        sys.stdout = old
        devnull.close()


def find_module(pid):
    d = os.path.join(VERIF, 'props')
    for f in sorted(os.listdir(d)):
        if f.lower().startswith(pid.lower() + '_') and f.endswith('.py'):
            return 'props.' + f[:-3]
    raise SystemExit(2)


def load(pid):
    sys.path.insert(0, VERIF)
    sys.path.insert(0, os.path.join(VERIF, 'lib'))
    m = importlib.import_module(find_module(pid))
    import leap_ec
    repo = os.environ.get('VERIF_REPO', '/repo')
    assert os.path.realpath(leap_ec.__file__).startswith(
        os.path.realpath(repo) + os.sep), leap_ec.__file__
    return m.M


def known_findings(pid):
    """Open findings: {'property','sub','match'} lines of known_findings.txt
    with status 'open'.  'match' is a substring of the failure traceback."""
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('{'):
                d = json.loads(line)
                if d.get('property') == pid and d.get('status') == 'open':
                    out.append(d)
    return out


def main(argv):
    global _MOD
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    only = None
    replay = None
    i = 1
    while i < len(argv):
        if argv[i] == '--replay':
            replay = argv[i + 1]
            i += 1
        elif argv[i] == '--sub':
            only = argv[i + 1]
            i += 1
        elif argv[i] in ('quick', 'thorough'):
            tier = argv[i]
        i += 1
    t0 = time.time()
    try:
        _MOD = load(pid)
    except BaseException:
        traceback.print_exc()
        return 2
    if replay:
        return do_replay(pid, replay)

    tasks = []
    for k, s in enumerate(_MOD.subs):
        if only and s.name != only:
            continue
        b = _MOD.boost
        total = s.n * QUICK * b if tier == 'quick' else s.n * max(s.mult * 2, QUICK * b)
        shards = s.shards * b if tier == 'quick' else max(s.shards * 4, 4)
        per = max(1, math.ceil(total / shards))
        for j in range(shards):
            h = hashlib.sha256(
                ('%d/%s/%s/%d' % (seed, pid, s.name, j)).encode())
            tasks.append((k, int(h.hexdigest()[:8], 16), per, j == 0))
    import multiprocessing as mp
    mpctx = mp.get_context('fork')
    results = []
    nproc = int(os.environ.get('VERIF_JOBS', str(min(8, os.cpu_count() or 1))))
    if nproc <= 1:
        for t in tasks:
            results.append(_worker(t))
    else:
        from concurrent.futures import ProcessPoolExecutor
        from concurrent.futures.process import BrokenProcessPool
        with ProcessPoolExecutor(min(nproc, len(tasks)), mp_context=mpctx) as ex:
            futs = [ex.submit(_worker, t) for t in tasks]
            for f in futs:
                try:
                    results.append(f.result())
                except BrokenProcessPool:
                    results.append(None)
        for j, r in enumerate(results):
            if r is None:              # some worker died: run that shard alone
                with ProcessPoolExecutor(1, mp_context=mpctx) as ex:
                    try:
                        results[j] = ex.submit(_worker, tasks[j]).result()
                    except BrokenProcessPool:
                        results[j] = (tasks[j][0], {
                            'sub': _MOD.subs[tasks[j][0]].name, 'evals': 0,
                            'nt': [], 'labels': {}, 'samples': [], 'error': None,
                            'wall': 0.0, 'failure': {
                                'case': {'shard': list(tasks[j])},
                                'tb': 'the process running the code under test died'}})

    violations, errors = [], []
    evals, distinct = 0, 0
    per_sub = {}
    samples = []
    for k, r in results:
        d = per_sub.setdefault(r['sub'], {
            'evaluations': 0, 'nontrivial': set(), 'classes': {}, 'wall_s': 0.0,
            'rule': _MOD.subs[k].rule})
        d['evaluations'] += r['evals']
        d['nontrivial'].update(r['nt'])
        d['wall_s'] = round(d['wall_s'] + r['wall'], 2)
        for l, c in r['labels'].items():
            d['classes'][l] = d['classes'].get(l, 0) + c
        if not any(x['check'] == r['sub'] for x in samples):
            for c in r['samples'][:1]:
                samples.append({'check': r['sub'], 'case': c})
        if r['error']:
            errors.append((r['sub'], r['error']))
        if r['failure']:
            violations.append((r['sub'], r['failure']))
    for d in per_sub.values():
        d['nontrivial'] = len(d['nontrivial'])
        evals += d['evaluations']
        distinct += d['nontrivial']

    known = known_findings(pid)
    reported = []
    for name, f in violations:
        hit = None
        for kf in known:
            if kf.get('sub') == name and kf.get('match') in f['tb']:
                hit = kf
        if hit:
            print('KNOWN-FINDING: property=%s %s' % (pid, hit['what']))
        else:
            reported.append((name, f))

    ev = {
        'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick',
        'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': evals,
            'distinct_nontrivial': distinct,
            'rule': 'Cases are generated by Hypothesis (seeded from VERIF_SEED) '
                    'as JSON-able inputs per sub-check; a case is non-trivial '
                    'when: ' + '; '.join(
                        '[%s] %s' % (n, d['rule'])
                        for n, d in per_sub.items()),
            'samples': samples,
            'sub_checks': per_sub,
        },
        'assumptions': list(_MOD.assumptions),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(reported),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)

    first = {}
    for name, f in reported:
        if name not in first or len(canon(f['case'])) < len(canon(first[name]['case'])):
            first[name] = f
    reported = sorted(first.items())
    for name, f in reported[:3]:
        print('--- %s / %s\n%s\ncase: %s' % (
            pid, name, f['tb'].strip()[-2500:], canon(f['case'])[:3000]))
    if reported:
        rd = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rd, exist_ok=True)
        seen = set()
        for name, f in reported:
            if name in seen:
                continue
            seen.add(name)
            path = os.path.join(rd, '%s_%s.json' % (pid, name))
            with open(path, 'w') as fh:
                json.dump({'property': pid, 'sub': name, 'case': f['case'],
                           'traceback': f['tb']}, fh, indent=1)
            print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if errors:
        for name, e in errors[:3]:
            print('HARNESS ERROR in %s/%s\n%s' % (pid, name, e), file=sys.stderr)
        return 2
    print('OK property=%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d '
          'wall=%.1fs' % (pid, tier, seed, evals, distinct, time.time() - t0))
    return 0


def do_replay(pid, path):
    d = json.load(open(path))
    s = [x for x in _MOD.subs if x.name == d['sub']][0]
    if isinstance(d['case'], dict) and list(d['case']) == ['shard']:
        pid_ = os.fork()
        if not pid_:
            r = _worker(d['case']['shard'])
            os._exit(1 if r[1]['failure'] else 0)
        if os.waitpid(pid_, 0)[1]:
            print('VIOLATION property=%s replay=%s' % (pid, path))
            return 1
        print('replay: no violation')
        return 0
    try:
        run_case(s, d['case'], Ctx())
    except BaseException:
        traceback.print_exc()
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    print('replay: no violation')
    return 0
