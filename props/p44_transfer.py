from common import *
import os
import tempfile
from leap_ec.contrib.transfer.sequential import PopulationSeedingRepertoire, initialize_seeded
from leap_ec.representation import Representation

M = Module('P44')
M.boost = 2
M.assumptions = ['Exported genomes are flat vectors of ints or float64 values; re-imported genomes are compared by value.']

value = st.one_of(st.integers(-1000, 1000).map(float), st.floats(allow_nan=False, width=64), st.floats(-1, 1))


@M.sub(case(seeds_=st.one_of(st.lists(st.lists(value, min_size=1, max_size=4), max_size=6), st.lists(st.lists(value, min_size=1, max_size=4), max_size=6), st.lists(st.lists(value, min_size=1, max_size=1), min_size=25, max_size=40)), extra=upto(0, 6, 40), via=st.sampled_from(['call', 'population'])), n=800, shards=2, rule='some seeds and some fresh genomes')
def seeded(c, ctx):
    sp = [np.array(g) for g in c['seeds_']]
    before = [g.tolist() for g in sp]
    fresh = []

    def init():
        g = np.array([1000.0 + len(fresh), 5.0])
        fresh.append(g)
        return g
    f = initialize_seeded(init, sp)
    total = len(sp) + c['extra']
    if c['via'] == 'call':
        out = [f() for _ in range(total)]
    else:
        pop = Representation(initialize=f).create_population(total, FunctionProblem(lambda p: 0.0, True))
        out = [i.genome for i in pop]
    check(len(out) == total, '%d genomes, expected %d', len(out), total)
    check([g.tolist() for g in out[:len(sp)]] == before, 'seeds came back as %r, expected %r', out[:len(sp)], before)
    check(len(fresh) == c['extra'], '%d fresh genomes generated, expected %d', len(fresh), c['extra'])
    check([g.tolist() for g in out[len(sp):]] == [[1000.0 + k, 5.0] for k in range(c['extra'])], 'after the seeds: %r', out[len(sp):])
    check([g.tolist() for g in sp] == before and len(sp) == len(before), 'the seed list was changed')
    # a second initialiser starts over
    g = initialize_seeded(init, sp)
    if sp:
        check(g().tolist() == before[0], 'a second initialiser does not start with the first seed')
    ctx.nt(len(sp) > 0 and c['extra'] > 0)


class Algo:
    """An 'algorithm' that yields (step, individual) and records its arguments."""

    def __init__(self, table, share=False, steps=None):
        self.table, self.calls, self.share, self.steps = table, [], share, steps or [0, 1, 2, 3]
        self.made = {}

    def ind(self, g):
        if not self.share:
            return Individual(np.array(g))
        return self.made.setdefault(tuple(g), Individual(np.array(g)))

    def __call__(self, problem, initialize, **kw):
        def run():
            self.calls.append((problem, initialize, kw))
            rows = self.table[problem]
            for s, g in zip(self.steps * len(rows), rows):
                yield s, self.ind(g)
        return run()


@M.sub(case(hist=st.lists(st.lists(st.lists(value, min_size=1, max_size=4), min_size=1, max_size=4), max_size=4), many=upto(1, 1, 8), share=bools, steps=st.lists(st.integers(0, 9), min_size=1, max_size=4), depth=st.sampled_from([4, 0, None]), again=st.lists(st.integers(0, 3), max_size=3), kw=bools, extra=st.integers(0, 4), second=st.lists(st.lists(value, min_size=2, max_size=3), max_size=2), ints=bools), n=700, shards=2, rule='at least two problems whose runs have several steps')
def repertoire(c, ctx):
    hist = [[[int(max(-1e6, min(1e6, v))) for v in g] for g in h] for h in c['hist']] if c['ints'] else c['hist']
    hist = hist * c['many']
    algo = Algo(dict(enumerate(hist)), c['share'], c['steps'])
    probs = list(range(len(hist))) + [k for k in c['again'] if k < len(hist)]      # a problem may occur twice
    fresh = []

    def init():
        fresh.append(1)
        return np.array([77.0])
    rep = PopulationSeedingRepertoire(init, algo)
    kws = [dict(size=j, opt=None) for j in range(len(probs))] if c['kw'] else None
    rep.build_repertoire(list(probs), kws)
    want = [[float(v) for v in hist[k][-1]] for k in probs]
    check(sorted(k[0] for k in algo.calls) == sorted(probs), 'trained on %r', [k[0] for k in algo.calls])
    check(all(k[1] is init for k in algo.calls), 'training must use the plain initialiser')
    check(sorted(((k[0], k[2]) for k in algo.calls), key=repr) == sorted(((k, dict(size=j, opt=None) if c['kw'] else {}) for j, k in enumerate(probs)), key=repr), 'problem arguments %r', [k[2] for k in algo.calls])
    check([[float(v) for v in g] for g in rep.repertoire] == want, 'repertoire %r, expected %r', rep.repertoire, want)
    if c['second']:
        algo.table = {0: c['second']}
        rep.build_repertoire([0], None)
        want = want + [[float(v) for v in c['second'][-1]]]
        check(algo.calls[-1][1]().tolist() == [77.0] and len(fresh) == 1, 'training again must use the plain initialiser')
        fresh.clear()
        check([[float(v) for v in g] for g in rep.repertoire] == want, 'training again must append: %r', rep.repertoire)
    check(not fresh, 'the repertoire itself generated genomes')

    def applied(r, a):
        a.table = {'new': [[0.0]]}
        a.calls.clear()
        list(r.apply('new', depth=c['depth']))
        (prob, ini, kw), = a.calls
        check(prob == 'new' and kw == dict(depth=c['depth']), 'applied to %r with %r', prob, kw)
        out = [ini() for _ in range(len(want) + c['extra'])]
        check([[float(v) for v in g] for g in out[:len(want)]] == want, 'seeds injected %r, expected %r', out, want)
        check(all(g.tolist() == [77.0] for g in out[len(want):]), 'after the seeds: %r', out[len(want):])
    applied(rep, algo)
    applied(rep, algo)            # applying does not use the repertoire up
    check([[float(v) for v in g] for g in rep.repertoire] == want, 'applying changed the repertoire')
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, 'rep.csv')
        rep.export(path)
        back = PopulationSeedingRepertoire(init, algo, repfile=path)
        check([[float(v) for v in g] for g in back.repertoire] == want, 'after export and import: %r, expected %r', back.repertoire, want)
        applied(back, algo)
        back.export(path)
        again = PopulationSeedingRepertoire(init, algo, repfile=path)
        check([[float(v) for v in g] for g in again.repertoire] == want, 'second round trip: %r', again.repertoire)
    ctx.nt(len(hist) > 1 and any(len(h) > 1 for h in hist))
