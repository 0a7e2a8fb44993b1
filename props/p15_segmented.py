from common import *
import itertools
from leap_ec.segmented_rep import ops as sops
from leap_ec.segmented_rep.decoders import SegmentedDecoder
from leap_ec.segmented_rep.initializers import create_segmented_sequence
from leap_ec.binary_rep.decoders import BinaryToIntDecoder
from leap_ec.binary_rep.ops import genome_mutate_bitflip
from leap_ec.real_rep.ops import genome_mutate_gaussian
from leap_ec import ops

M = Module('P15')
M.boost = 2


def seg(tag, kind):
    n = (1 + tag % 3) if tag % 7 != 3 else 0      # now and then an empty segment
    if kind == 'list':
        return [tag] * n
    return np.array([tag] * n, dtype=float if kind == 'float' else int)


def vals(g):
    return [[float(x) for x in s] for s in g]


def fresh(genome, fit=1.0):
    i = Individual(genome, problem=FunctionProblem(lambda p: 0.0, True))
    i.fitness = fit
    return i


step = st.tuples(st.sampled_from(['add', 'remove', 'copy', 'poke']),
                 st.sampled_from([0.0, 1.0, 0.5]), bools, st.integers(0, 30)).map(list)


@M.sub(case(kind=st.sampled_from(['int', 'float', 'list']), nseg=upto(1, 6, 33, 70),
            steps=st.lists(step, min_size=1, max_size=12)), n=1200, shards=2,
       rule='at least one structural change happened before another step')
def structural_history(c, ctx):
    """Model = list of segment values."""
    tag = [100]
    created = []

    def init():
        tag[0] += 1
        s = seg(tag[0], c['kind'])
        created.append(s)
        return s
    ind = fresh([seg(i, c['kind']) for i in range(c['nseg'])])
    model = vals(ind.genome)
    proto = seg(0, c['kind'])
    changes = 0
    for op, p, append, k in c['steps']:
        ind.fitness = 3.5
        ncreated = len(created)
        if op == 'poke':
            j = k % len(ind.genome)
            if len(ind.genome[j]) == 0:
                continue
            ind.genome[j][0] = 5000 + k
            model[j][0] = 5000.0 + k
            check(vals(ind.genome) == model, 'changing segment %d in place changed another: %r', j, vals(ind.genome))
            ctx.nt(changes > 0)
            continue
        if op == 'add':
            out = next(sops.add_segment(iter([ind]), seq_initializer=init, probability=p, append=append))
            d = 1
        elif op == 'remove':
            out = next(sops.remove_segment(iter([ind]), probability=p))
            d = -1
        else:
            out = next(sops.copy_segment(iter([ind]), probability=p, append=append))
            d = 1
        check(out is ind, 'a different individual came out')
        check(isinstance(ind.genome, list), 'genome became %r', type(ind.genome))
        check(all(type(s) is type(proto) and getattr(s, 'dtype', None) == getattr(proto, 'dtype', None) for s in ind.genome), '%s changed the type of a segment: %r', op, ind.genome)
        got = vals(ind.genome)
        if got == model and len(got) == len(model):
            check(p < 1.0 or (op == 'remove' and len(model) == 1), '%s with probability 1 did nothing', op)
            check(ind.fitness == 3.5, '%s changed nothing but fitness is %r', op, ind.fitness)
            check(len(created) == ncreated, 'a new segment was created but not added')
            continue
        changes += 1
        check(p > 0, '%s with probability 0 changed the genome', op)
        check(len(got) == len(model) + d, '%s: %d segments became %d', op, len(model), len(got))
        check(len(got) >= 1, 'genome is empty')
        check(ind.fitness is None, '%s changed the genome but kept fitness', op)
        if op == 'add':
            check(len(created) == ncreated + 1, 'initialiser called %d times', len(created) - ncreated)
            new = [float(x) for x in created[-1]]
            pos = range(len(model), len(model) + 1) if append else range(len(model) + 1)
            check(any(got == model[:i] + [new] + model[i:] for i in pos), 'add(append=%s): %r from %r', append, got, model)
        elif op == 'copy':
            pos = range(len(model), len(model) + 1) if append else range(len(model) + 1)
            check(any(got == model[:i] + [s] + model[i:] for i in pos for s in model), 'copy(append=%s): %r from %r', append, got, model)
        else:
            check(any(got == model[:i] + model[i + 1:] for i in range(len(model))), 'remove: %r from %r', got, model)
        for a, b in itertools.combinations(ind.genome, 2):
            check(a is not b and not (isinstance(a, np.ndarray) and np.shares_memory(a, b)), 'two segments share storage')
        model = got
    ctx.nt(changes > 1)


@M.sub(case(op=st.sampled_from(['add', 'remove', 'copy']), p=st.sampled_from([0.1, 0.3, 0.5, 0.9]),
            n=st.integers(2, 5), append=bools), n=40, mult=6, shards=2,
       rule='always (900 applications per case)')
def rates(c, ctx):
    N, hap = 900, 0
    n = c['n']
    pos = {}
    src = {}
    for _ in range(N):
        ind = fresh([np.array([i]) for i in range(n)])
        if c['op'] == 'add':
            out = next(sops.add_segment(iter([ind]), seq_initializer=lambda: np.array([99]), probability=c['p'], append=c['append']))
        elif c['op'] == 'remove':
            out = next(sops.remove_segment(iter([ind]), probability=c['p']))
        else:
            out = next(sops.copy_segment(iter([ind]), probability=c['p'], append=c['append']))
        g = [int(s[0]) for s in out.genome]
        if len(g) == n:
            continue
        hap += 1
        if c['op'] == 'add':
            k = g.index(99)
            pos[k] = pos.get(k, 0) + 1
        elif c['op'] == 'remove':
            k = ({*range(n)} - {*g}).pop()
            pos[k] = pos.get(k, 0) + 1
        else:
            s = [x for x in range(n) if g.count(x) == 2][0]
            src[s] = src.get(s, 0) + 1
            for end, at in ((0, 'first'), (-1, 'last')):
                pos[at] = pos.get(at, 0) + (g[end] == s and s != range(n)[end])
    check_binom(hap, N, c['p'], 'rate of %s' % c['op'])
    if c['op'] == 'copy':
        for k in range(n):
            check_binom(src.get(k, 0), hap, 1 / n, 'copied segment %d' % k)
        for at in ('first', 'last'):
            want = (1 if at == 'last' else 0) if c['append'] else 1 / (n + 1)
            check_binom(pos.get(at, 0), hap, want * (n - 1) / n, 'another segment copied to the %s place' % at)
    elif c['op'] == 'remove':
        for k in range(n):
            check_binom(pos.get(k, 0), hap, 1 / n, 'removed position %d' % k)
    elif c['append']:
        check(set(pos) <= {n}, 'append inserted at %r', pos)
    else:
        for k in range(n + 1):
            check_binom(pos.get(k, 0), hap, 1 / (n + 1), 'insertion position %d' % k)
    ctx.nt()


@M.sub(case(lens=st.one_of(*[st.lists(st.integers(1, 4), min_size=1, max_size=5)] * 5, st.lists(st.integers(1, 2), min_size=30, max_size=70)), e=st.sampled_from([0.5, 1.0, 2.0]),
            count=st.integers(1, 3)), n=400, rule='at least two segments')
def per_segment_mutation(c, ctx):
    """apply_mutation: each segment once, in order, expected/num_segments each;
    segmented_mutate: i-th mutator on i-th segment."""
    m = len(c['lens'])
    inds, models = [], []
    for q in range(c['count']):
        g = [np.array([100 * q + 10 * i + j for j in range(n)]) for i, n in enumerate(c['lens'])]
        inds.append(fresh(g))
        models.append([s.tolist() for s in g])
    calls = []

    def mut(s, expected_num_mutations=None):
        calls.append((s.tolist(), expected_num_mutations))
        return s + 1000
    if m:
        out = list(itertools.islice(sops.apply_mutation(iter(inds), mutator=mut, expected_num_mutations=c['e']), c['count']))
        check(same_list(out, inds), 'individuals out of order')
        check([x for x, _ in calls] == [s for mo in models for s in mo], 'mutator saw %r', calls)
        for _, e in calls:
            check(close(e, c['e'] / m), 'expected mutations %r per segment, not %r', e, c['e'] / m)
        for o, mo in zip(out, models):
            check([s.tolist() for s in o.genome] == [[x + 1000 for x in s] for s in mo], 'mutated genome %r', o.genome)
            check(o.fitness is None, 'fitness kept')
    for o in inds:
        o.fitness = 2.0
    fns = [(lambda k: lambda s: s * 0 + k)(k) for k in range(m)]
    out = list(itertools.islice(sops.segmented_mutate(iter(inds), mutator_functions=fns), c['count']))
    check(same_list(out, inds), 'individuals out of order')
    for o in out:
        check([s.tolist() for s in o.genome] == [[k] * n for k, n in enumerate(c['lens'])],
              'segmented_mutate gave %r', o.genome)
        check(o.fitness is None, 'fitness kept')
    ctx.nt(m > 1)


@M.sub(case(m=st.integers(1, 4), w=st.integers(1, 5), e=st.sampled_from([0.5, 1.0])), n=25, mult=5,
       rule='always (800 applications of bit-flip over the segments)')
def apply_mutation_rate(c, ctx):
    N = 800
    m, w = c['m'], c['w']
    flips = np.zeros((m, w), dtype=int)
    for _ in range(N):
        ind = fresh([np.zeros(w, dtype=int) for _ in range(m)])
        o = next(sops.apply_mutation(iter([ind]), mutator=genome_mutate_bitflip, expected_num_mutations=c['e']))
        flips += np.array([np.asarray(s) for s in o.genome])
    for i in range(m):
        for j in range(w):
            check_binom(int(flips[i, j]), N, c['e'] / m / w, 'flip of gene %d in segment %d' % (j, i))
    ctx.nt()


@M.sub(case(n=st.integers(30, 150), w=st.integers(1, 3), alias=bools), n=60, rule='every case (many segments)')
def many_segments(c, ctx):
    segs = [np.random.randint(0, 2, size=c['w']) for _ in range(c['n'])]
    if c['alias']:
        segs = [segs[i // 2] for i in range(c['n'])]
    got = SegmentedDecoder(BinaryToIntDecoder(c['w'])).decode(segs)
    want = [[int(''.join(map(str, s)), 2)] for s in segs]
    check([[int(x) for x in s] for s in got] == want, '%d segments decoded to %d values that differ', c['n'], len(got))
    ctx.nt()


@M.sub(case(lens=st.lists(st.integers(1, 3), min_size=1, max_size=4), bits=st.lists(st.integers(0, 1), min_size=40, max_size=40),
            fn=bools, k=st.integers(0, 5), arr=bools), n=400, rule='at least two segments')
def decode_and_init(c, ctx):
    w = c['lens']
    n = sum(w)
    nseg = min(5, max(1, 40 // n))
    segs = [np.array(c['bits'][i * n:(i + 1) * n]) for i in range(nseg)]
    ref = [[int(''.join(map(str, s[sum(w[:i]):sum(w[:i + 1])])), 2) for i in range(len(w))] for s in segs]
    before = [s.copy() for s in segs]
    genome = np.array(segs) if c['arr'] else segs
    got = SegmentedDecoder(BinaryToIntDecoder(*w)).decode(genome)
    check(len(got) == len(ref) and [[int(x) for x in s] for s in got] == ref, 'decoded %r, expected %r', got, ref)
    check(all((a == b).all() for a, b in zip(genome, before)), 'decode modified the genome')
    cnt = itertools.count()
    lens = itertools.cycle([c['k'], c['k'] + 2])
    init = create_segmented_sequence((lambda: next(lens)) if c['fn'] else c['k'], lambda: [next(cnt)])
    for j in range(3):
        g = init()
        want = (c['k'] + (2 if j % 2 else 0)) if c['fn'] else c['k']
        check(len(g) == want, 'asked for %d segments, got %d', want, len(g))
        check(all(isinstance(s, list) and len(s) == 1 for s in g), 'segments %r', g)
        check([s[0] for s in g] == list(range(next(cnt) - want, next(cnt) - 1)), 'segments not freshly initialised in order: %r', g)
    ctx.nt(nseg > 1)


@M.sub(case(op=st.sampled_from(['add', 'remove', 'copy']), n=st.sampled_from([18, 24])), n=6, mult=4, rule='always (2500 applications per case)')
def every_place(c, ctx):
    """In genomes of many segments every place can be chosen."""
    n, seen, src = c['n'], set(), set()
    for _ in range(2500):
        ind = fresh([np.array([i]) for i in range(n)])
        if c['op'] == 'add':
            next(sops.add_segment(iter([ind]), seq_initializer=lambda: np.array([99]), probability=1.0))
            seen.add([int(s[0]) for s in ind.genome].index(99))
        elif c['op'] == 'remove':
            next(sops.remove_segment(iter([ind]), probability=1.0))
            seen |= set(range(n)) - {int(s[0]) for s in ind.genome}
        else:
            next(sops.copy_segment(iter([ind]), probability=1.0))
            g = [int(s[0]) for s in ind.genome]
            src |= {x for x in g if g.count(x) == 2}
            if g[-1] != n - 1:
                seen.add('end')
            if g[0] != 0:
                seen.add('start')
    want = {'add': set(range(n + 1)), 'remove': set(range(n)), 'copy': {'start', 'end'}}[c['op']]
    check(seen == want, '%s never happened at %r', c['op'], sorted(map(str, want - seen)))
    check(c['op'] != 'copy' or src == set(range(n)), 'segments %r were never copied', sorted(set(range(n)) - src))
    ctx.nt()
