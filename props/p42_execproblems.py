from common import *
import itertools
import os
import tempfile
import time
from gymnasium import spaces
from PIL import Image
from leap_ec.executable_rep.problems import EnvironmentProblem, TruthTableProblem, ImageXYProblem
from leap_ec.executable_rep.executable import ArgmaxExecutable, WrapperDecoder, RandomExecutable, KeyboardExecutable

M = Module('P42')
M.assumptions = ['Environments are scripted stand-ins for the gymnasium interface; images are small RGB files in a scratch directory.']


class Table:
    """A boolean executable given by its truth table (index = bits, msb first)."""

    def __init__(self, n, rows, nin=None):
        self.n, self.rows = n, rows
        self.num_inputs = nin or n
        self.seen = []

    def __call__(self, x):
        self.seen.append([int(v) for v in x])
        k = 0
        for v in x[:self.n]:
            k = 2 * k + int(v)
        return list(self.rows[k])


@M.sub(case(extra=st.sampled_from([None, None, None, 'long', 'short']), n=upto(1, 5, 8, 11), m=upto(1, 3, 10, 20), base=st.integers(0, 2 ** 32), flips=st.lists(st.tuples(st.integers(0, 2047), st.integers(0, 19)), max_size=12), pad=st.integers(0, 3), padded=bools, mx=bools), n=1200, shards=2, rule='the executable agrees on some rows and disagrees on others')
def truth_table(c, ctx):
    n, m = c['n'], c['m']
    rs = np.random.RandomState(c['base'] % (2 ** 32))
    target = rs.randint(0, 2, size=(2 ** n, m)).tolist()
    mine = copy.deepcopy(target)
    for r, b in c['flips']:
        mine[r % 2 ** n][b % m] ^= 1
    if c['extra'] == 'long':
        mine[c['base'] % 2 ** n] = mine[c['base'] % 2 ** n] + [0]
    elif c['extra'] == 'short':
        mine[c['base'] % 2 ** n] = mine[c['base'] % 2 ** n][:-1]
    want = sum(a == b for a, b in zip(target, mine)) / 2 ** n
    t = Table(n, target)
    e = Table(n, mine, n + c['pad'] if c['padded'] else n)
    p = TruthTableProblem(t, n, m, pad_inputs=c['padded'], maximize=c['mx'])
    got = p.evaluate(e)
    check(close(got, want, 1e-12, 1e-12), 'score %r, expected %r', got, want)
    rows = [list(x) for x in itertools.product([0, 1], repeat=n)]
    check(sorted(x[:n] for x in e.seen) == sorted(rows), 'the executable saw inputs %r', e.seen)
    check(all(x[n:] == [0] * (e.num_inputs - n) for x in e.seen), 'padding %r', e.seen)
    check(sorted(t.seen) == sorted(rows), 'the target saw inputs %r', t.seen)
    check(close(p.evaluate(e), want, 1e-12, 1e-12), 'a second evaluation differs')
    check(p.maximize == c['mx'], 'direction %r', p.maximize)
    check(p.worse_than(0.25, 0.5) == c['mx'] and p.worse_than(0.5, 0.25) == (not c['mx']), 'direction of comparison')
    ctx.nt(0 < want < 1)
    ctx.label('padded', c['padded'] and c['pad'] > 0)


@M.sub(case(mag=st.sampled_from([1, 1, 1, 2000]), w=upto(1, 6, 45, 70), h=upto(1, 6, 45, 70), img=seeds, coef=st.lists(st.tuples(st.integers(-20, 20), st.integers(-20, 20), st.integers(0, 200)), min_size=3, max_size=3), fmt=st.sampled_from(['png', 'bmp']), div=st.sampled_from([1, 2, 4]), same=bools), n=300, shards=2, rule='a non-square image with non-zero distance')
def image(c, ctx):
    w, h = c['w'], c['h']
    px = np.random.RandomState(c['img']).randint(0, 256, size=(h, w, 3)).astype(np.uint8)

    def ex(args):
        x, y = args
        return [np.asarray(x) * a * c['mag'] / c['div'] + np.asarray(y) * b * c['mag'] + k for a, b, k in c['coef']]

    def ref(x, y):
        return [math.trunc(x * a * c['mag'] / c['div'] + y * b * c['mag'] + k) for a, b, k in c['coef']]
    if c['same']:
        for y in range(h):
            for x in range(w):
                px[y, x] = [v % 256 for v in ref(x, y)]
    s = 0
    for y in range(h):
        for x in range(w):
            s += sum((int(px[y, x, k]) - v) ** 2 for k, v in enumerate(ref(x, y)))
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, 'im.' + c['fmt'])
        Image.fromarray(px, 'RGB').save(path)
        p = ImageXYProblem(path)
        got = p.evaluate(ex)
        check(close(got, math.sqrt(s), 1e-9, 1e-9), 'distance %r, expected %r', got, math.sqrt(s))
        check(p.maximize is False and (p.width, p.height) == (w, h), 'direction %r, size %r', p.maximize, (p.width, p.height))
        im = ImageXYProblem.generate_image(ex, w, h)
        check(np.asarray(im).tolist() == [ref(x, y) for y in range(h) for x in range(w)], 'generated image %r', np.asarray(im).tolist())
        check(ImageXYProblem(path, maximize=True).maximize is True, 'maximize')
    ctx.nt(w != h and s > 0)


class Env:
    observation_space = spaces.Box(low=-1.0, high=1.0, shape=(2,), dtype=np.float32)
    action_space = spaces.Discrete(7)

    def __init__(self, episodes):
        self.episodes = episodes
        self.run = -1
        self.log = []
        self.renders = 0

    def reset(self, **k):
        self.run += 1
        self.t = 0
        self.log.append([])
        return np.array([self.run, 0.0]), {}

    def render(self):
        self.renders += 1

    def step(self, action):
        ep = self.episodes[self.run % len(self.episodes)]
        reward, term, trunc = ep[self.t % len(ep)]
        self.t += 1
        self.log[-1].append(action)
        return np.array([self.run, float(self.t)]), reward, term, trunc, {}


ev = st.tuples(st.one_of(st.integers(-40, 40).map(lambda i: i / 8), st.integers(-4000, 4000).map(lambda i: i / 7)), st.sampled_from([False] * 7 + [True]), st.sampled_from([False] * 7 + [True]))


@M.sub(case(eps=st.lists(st.lists(ev, min_size=1, max_size=8), min_size=1, max_size=4), runs=upto(1, 5, 24), steps=upto(1, 12, 150, 600), kind=st.sampled_from(['reward', 'survival']), gui=bools, stop=bools, default=bools, mx=bools), n=1500, shards=2, rule='a run ended before the step limit and another reached it')
def environment(c, ctx):
    env = Env(c['eps'])
    kw = {} if c['default'] else dict(stop_on_done=c['stop'], maximize=c['mx'])
    stop = True if c['default'] else c['stop']
    p = EnvironmentProblem(c['runs'], c['steps'], env, c['kind'], c['gui'], **kw)
    check(p.maximize == (True if c['default'] else c['mx']), 'direction')
    seen = []

    def act(obs):
        seen.append([float(v) for v in obs])
        return int(3 * obs[0] + 5 * obs[1]) % 7
    got = p.evaluate(act)
    sums, lens, want_seen, want_log = [], [], [], []
    for r in range(c['runs']):
        ep = c['eps'][r % len(c['eps'])]
        s, n, acts = 0.0, 0, []
        for t in range(c['steps']):
            want_seen.append([float(r), float(t)])
            acts.append(int(3 * r + 5 * t) % 7)
            rew, a, b = ep[t % len(ep)]
            s += rew
            n += 1
            if stop and (a or b):
                break
        sums.append(s)
        lens.append(n + 1)
        want_log.append(acts)
    want = sum(sums) / len(sums) if c['kind'] == 'reward' else sum(lens) / len(lens)
    check(close(got, want, 1e-9, 1e-9), '%s fitness %r, expected %r', c['kind'], got, want)
    check(seen == want_seen, 'observations passed %r, expected %r', seen, want_seen)
    check(env.log == want_log, 'actions fed to the environment %r, expected %r', env.log, want_log)
    check(env.renders == (sum(map(len, want_log)) if c['gui'] else 0), 'rendered %d times', env.renders)
    check(p.num_inputs == 2 and p.num_outputs == 1, 'space sizes')
    check(raises(ValueError, EnvironmentProblem, 1, 1, env, 'nonsense', False), 'unknown fitness type accepted')
    full = {len(a) == c['steps'] for a in want_log}
    ctx.nt(len(full) > 1)
    ctx.label('truncated only', any(b and not a for e in c['eps'] for _, a, b in e))


simple = st.one_of(st.tuples(st.just('D'), st.integers(1, 9)), st.tuples(st.just('B'), st.lists(st.integers(1, 4), min_size=1, max_size=3)),
                   st.tuples(st.just('MB'), st.integers(1, 5)), st.tuples(st.just('MD'), st.lists(st.integers(1, 4), min_size=1, max_size=4)))


def mkspace(s):
    k, v = s
    if k == 'D':
        return spaces.Discrete(v), 1
    if k == 'B':
        return spaces.Box(low=-1.0, high=1.0, shape=tuple(v), dtype=np.float32), math.prod(v)
    if k == 'MB':
        return spaces.MultiBinary(v), v
    return spaces.MultiDiscrete(v), len(v)


@M.sub(case(parts=st.lists(simple, min_size=1, max_size=7), tup=bools), n=300, shards=1, rule='a tuple of at least two spaces')
def dimensions(c, ctx):
    sp = [mkspace(s) for s in c['parts']]
    if c['tup']:
        check(EnvironmentProblem.space_dimensions(spaces.Tuple([s for s, _ in sp])) == sum(n for _, n in sp), 'tuple dimensions')
    for s, n in sp:
        check(EnvironmentProblem.space_dimensions(s) == n, 'dimensions of %r: %r', s, EnvironmentProblem.space_dimensions(s))
        s.seed(c['seed'] % 999)
        v = RandomExecutable(None, s)('anything')
        check(s.contains(v), 'random action %r is outside %r', v, s)
    ctx.nt(c['tup'] and len(sp) > 1)


@M.sub(case(v=st.lists(st.integers(-5, 5), min_size=1, max_size=6), g=st.integers(0, 99)), n=400, shards=1, rule='the maximum is not first')
def wrappers(c, ctx):
    class Inner:
        num_inputs = 41

        def __call__(self, x):
            return [v * x for v in c['v']]
    a = ArgmaxExecutable(Inner())
    check(int(a(2)) == c['v'].index(max(c['v'])), 'argmax of %r gave %r', c['v'], a(2))
    check(int(a(-2)) == c['v'].index(min(c['v'])), 'argmax of the negated outputs gave %r', a(-2))
    check(a.num_inputs == 41, 'attribute of the wrapped executable')
    check(raises(AttributeError, getattr, a, 'no_such_attribute'), 'missing attribute')
    log = []

    class Dec:
        def decode(self, genome, *args, **kw):
            log.append(genome)
            return ('decoded', genome)
    d = WrapperDecoder(Dec(), lambda e: ('wrapped', e))
    check(d.decode(c['g']) == ('wrapped', ('decoded', c['g'])) and log == [c['g']], 'wrapper decoder gave %r after %r', d.decode(c['g']), log)
    d2 = WrapperDecoder(Dec(), ArgmaxExecutable)
    check(isinstance(d2.decode(1), ArgmaxExecutable), 'decorated with a class')
    ctx.nt(c['v'].index(max(c['v'])) > 0)


@M.sub(case(keys=st.lists(st.tuples(bools, st.integers(0, 4)), max_size=10), own=bools), n=150, shards=3, mult=5, rule='a key released while another action is active')
def keyboard(c, ctx):
    """The pressed key's action is repeated until that action's key is released."""
    keymap = {0: 0, 1: 3, 2: 5, 3: 3, 4: 8}
    if c['own']:
        k = KeyboardExecutable(None, spaces.Discrete(9), keymap=lambda x: keymap[x])
        code = lambda key: key
    else:                                   # digit keys stand for themselves, others for 0
        k = KeyboardExecutable(None, spaces.Discrete(9))
        names = [ord('0'), ord('3'), ord('5'), ord('1'), ord('a')]
        code = names.__getitem__
        keymap = {0: 0, 1: 3, 2: 5, 3: 1, 4: 0}
    cur, other = 0, False
    old = time.sleep
    time.sleep = lambda s: None
    try:
        for press, key in c['keys']:
            if press:
                k.key_press(code(key), None)
                cur = keymap[key]
            else:
                k.key_release(code(key), None)
                other = other or (cur and keymap[key] != cur)
                if keymap[key] == cur:
                    cur = 0
            got = k('x')
            check(got == cur, 'keyboard action %r, expected %r', got, cur)
    finally:
        time.sleep = old
    check(raises(ValueError, KeyboardExecutable, None, spaces.MultiBinary(2)), 'a two-output space was accepted')
    ctx.nt(other)
