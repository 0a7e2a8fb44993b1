from common import *
import csv as _csv
import io
import itertools
import networkx as nx
import random as _random
from leap_ec import ops

M = Module('P20')
M.boost = 2
M.assumptions = ['Every island has at least one out-neighbour; fitnesses are not NaN.']


@st.composite
def graphs(draw):
    n = draw(upto(2, 5, 9, 14))
    kind = draw(st.sampled_from(['complete', 'cycle', 'path', 'dicycle', 'star', 'digraph']))
    edges = None
    if kind == 'digraph':
        edges = []
        for i in range(n):
            for j in draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=3, unique=True)):
                edges.append((i, j))
    return {'n': n, 'kind': kind, 'edges': edges}


def build(g):
    n = g['n']
    if g['kind'] == 'complete':
        return nx.complete_graph(n)
    if g['kind'] == 'cycle':
        return nx.cycle_graph(n)
    if g['kind'] == 'path':
        return nx.path_graph(n)
    if g['kind'] == 'dicycle':
        return nx.cycle_graph(n, create_using=nx.DiGraph)
    if g['kind'] == 'star':
        return nx.star_graph(n - 1)
    G = nx.DiGraph()
    G.add_nodes_from(range(n))
    G.add_edges_from([tuple(e) for e in g['edges']])
    return G


def neighbours(g, G, i):
    if G.is_directed():
        return {b for a, b in G.edges() if a == i}
    return {b for a, b in G.edges() if a == i} | {a for a, b in G.edges() if b == i}


@M.sub(case(g=graphs(), sizes=st.lists(upto(1, 4, 11), min_size=5, max_size=5), fits=st.lists(st.one_of(tied, eighths, eighths.map(lambda v: v / 7)), min_size=20, max_size=20),
            maximize=bools, gap=st.integers(1, 4), first=st.integers(0, 5), sel=st.sampled_from(['mine', 'builtin']),
            rounds=st.lists(st.one_of(st.just('all'), st.just('rev'), st.lists(st.integers(0, 13), max_size=6)), min_size=1, max_size=7),
            stamp=st.sampled_from(['none', 'same', 'replace']), metric=bools, newlist=bools), n=800, shards=3,
       rule='at least one immigrant replaced and at least one was rejected, or three immigrants were processed')
def history(c, ctx):
    g = c['g']
    G = build(g)
    n = g['n']
    problem = FunctionProblem(lambda p: 0.0, c['maximize'])
    fi = itertools.cycle(c['fits'])
    pops = []
    for k in range(n):
        pop = []
        for j in range(c['sizes'][k % 5]):
            x = Individual(np.array([k, j, 0]), problem=problem)
            x.fitness = next(fi)
            pop.append(x)
        pops.append(pop)
    cx = {'leap': {}}
    ev = []

    def esel(pop):
        inner = ops.tournament_selection(pop) if c['sel'] == 'builtin' else None
        while True:
            x = next(inner) if inner else pop[_random.randrange(len(pop))]
            ev.append(('sponsor', x, x.fitness, x.genome.tolist()))
            yield x

    def rsel(pop, indices=None):
        while True:
            idx = []
            if c['sel'] == 'builtin':
                x = next(ops.random_selection(pop, indices=idx))
                i = idx[0]
            else:
                i = _random.randrange(len(pop))
                x = pop[i]
            if indices is not None:
                indices.append(i)
            ev.append(('contest', i, x))
            yield x

    def stamp(imm, island):
        out = imm
        if c['stamp'] == 'replace':
            out = imm.clone()
            out.fitness = imm.fitness + (1.0 if imm.fitness % 1 else -1.0)
        ev.append(('stamp', imm, island, out))
        return out

    mstream = io.StringIO()
    mm = ops.migration_metric(mstream, notes={'run': 3}) if c['metric'] else None
    attempts = []

    def metric(gen, imm, contestant, success):
        ev.append(('metric', gen, imm, contestant, bool(success)))
        if mm:
            mm(gen, imm, contestant, success)
    kw = {'customs_stamp': stamp}
    op = ops.migrate(G, esel, rsel, c['gap'], metric=metric, context=cx, **kw)
    outstanding = []          # dicts: src, fitness, genome, parent, visited
    rounds = list(c['rounds'])
    gen = c['first']
    wins = losses = 0
    flush = False
    steps = []
    for r in rounds:
        order = list(range(n)) if r == 'all' else list(range(n))[::-1] if r == 'rev' else [x % n for x in r]
        steps.append((gen, order))
        gen += 1
    # two closing rounds that only receive
    quiet = gen + (1 if gen % c['gap'] == 0 else 0)
    if c['gap'] > 1:
        steps.append((quiet, list(range(n))))
    for gen, order in steps:
        for d in order:
            cx['leap']['generation'] = gen
            cx['leap']['current_subpopulation'] = d
            if c['newlist']:
                pops[d] = list(pops[d])
            before = list(pops[d])
            others = {k: list(pops[k]) for k in range(n) if k != d}
            values = [(genome_value(x.genome), x.fitness) for p in pops for x in p]
            ev.clear()
            out = op(pops[d])
            check(isinstance(out, list) and len(out) == len(before), 'island size changed from %d to %d', len(before), len(out))
            for k in others:
                check(same_list(pops[k], others[k]), 'another island was touched')
            check(values == [(genome_value(x.genome), x.fitness) for p in [pops[k] if k != d else before for k in range(n)] for x in p],
                  'an individual was modified by migration')
            model = list(before)
            k = 0
            while k < len(ev) and ev[k][0] == 'stamp':
                check(len(ev) >= k + 3 and ev[k + 1][0] == 'contest' and ev[k + 2][0] == 'metric', 'order of events %r', [e[0] for e in ev])
                _, imm, island, stamped = ev[k]
                _, ci, contestant = ev[k + 1]
                _, mg, mi, mc, success = ev[k + 2]
                k += 3
                check(island == d, 'customs called for island %r while processing %d', island, d)
                m = [o for o in outstanding if o['parent'] in imm.parents and o['genome'] == imm.genome.tolist()
                     and o['fitness'] == imm.fitness and d in o['nbrs']]
                check(bool(m), 'immigrant %r on island %d was not sent there', imm, d)
                outstanding.remove(m[0])
                check(all(imm is not x for p in [before, *others.values()] for x in p), 'the migrant is the sponsor itself, not a copy')
                check(contestant is model[ci], 'contestant not drawn from the current island')
                fi_, fc = stamped.fitness, contestant.fitness
                good = fi_ >= fc if c['maximize'] else fi_ <= fc
                check(success == good, 'migrant %r against %r (maximize=%s): success=%s', fi_, fc, c['maximize'], success)
                check(mg == gen and mi is stamped and mc is contestant, 'metric reported %r', ev[k - 1])
                attempts.append((gen, fi_, fc, success))
                if good:
                    model[ci] = stamped
                    wins += 1
                else:
                    losses += 1
            check(same_list(out, model), 'island %d after immigration is not the expected one', d)
            rest = ev[k:]
            if gen % c['gap'] == 0:
                check(len(rest) == 1 and rest[0][0] == 'sponsor', 'emigration in generation %d (gap %d): %r', gen, c['gap'], [e[0] for e in rest])
                check(any(rest[0][1] is x for x in out), 'sponsor left its island')
                outstanding.append({'src': d, 'parent': rest[0][1].uuid, 'fitness': rest[0][2], 'genome': rest[0][3],
                                    'nbrs': neighbours(g, G, d), 'left': None})
            else:
                check(not rest, 'emigration in generation %d with gap %d', gen, c['gap'])
            pops[d] = out
            # an emigrant all of whose possible destinations have been processed must have arrived
            for o in outstanding:
                if o['left'] is None:
                    o['left'] = set(o['nbrs'])
                    if o['src'] == d:
                        continue
                o['left'].discard(d)
                check(bool(o['left']), 'an emigrant from island %d was lost', o['src'])
    if c['metric']:
        rows = list(_csv.DictReader(io.StringIO(mstream.getvalue())))
        check(len(rows) == len(attempts), '%d metric rows for %d attempts', len(rows), len(attempts))
        for r, (ge, a, b, s) in zip(rows, attempts):
            check(r['run'] == '3' and int(r['generation']) == ge and close(float(r['migrant_fitness']), a)
                  and close(float(r['contestant_fitness']), b) and r['success'] == str(s), 'metric row %r for %r', r, (ge, a, b, s))
    ctx.nt((wins and losses) or wins + losses >= 3)
    ctx.label('wins', wins > 0)
    ctx.label('losses', losses > 0)
    ctx.label(g['kind'])


@M.sub(case(g=graphs(), src=st.integers(0, 99), gap=st.integers(1, 3), phase=st.integers(0, 40)), n=60, mult=4, rule='the source has more than one neighbour')
def destination(c, ctx):
    """The destination is uniform over the neighbours of whichever island sends."""
    n, N = c['g']['n'], 300
    src = c['src'] % n
    G = build(c['g'])
    nbrs = neighbours(c['g'], G, src)
    counts = [0] * n
    problem = FunctionProblem(lambda p: 0.0, True)
    cx = {'leap': {}}
    pops = [[ind_with(1.0, problem=problem)] for _ in range(n)]

    def stamp(i, isl):
        if i.genome.tolist() == [77]:
            counts[isl] += 1
        i.genome = np.array([78])
        i.fitness = 0.0
        return i
    op = ops.migrate(G, ops.tournament_selection, ops.random_selection, c['gap'], customs_stamp=stamp, context=cx)
    for t in range(N):
        cx['leap'] = {'generation': (t + c['phase']) * c['gap'], 'current_subpopulation': src}
        pops[src] = [ind_with(1.0, problem=problem, genome=np.array([77]))]
        op(pops[src])
        for k in range(n):
            cx['leap'] = {'generation': (t + c['phase']) * c['gap'] + (c['gap'] > 1), 'current_subpopulation': k}
            if c['gap'] > 1:
                op(pops[k])
            elif k != src:
                pops[k] = [ind_with(1.0, problem=problem, genome=np.array([79]))]
                op(pops[k])
    if c['gap'] > 1:
        check(sum(counts) == N, '%d of %d migrants arrived', sum(counts), N)
    if c['gap'] > 1 or src not in nbrs:
        for k in range(n):
            if k in nbrs:
                check_binom(counts[k], sum(counts), 1 / len(nbrs), 'island %d as destination of island %d' % (k, src))
            else:
                check(counts[k] == 0, 'island %d sent to island %d, which is no neighbour', src, k)
        check(sum(counts) == N, '%d of %d migrants arrived', sum(counts), N)
    ctx.nt(len(nbrs) > 1)


@M.sub(case(header=bools, notes=st.dictionaries(st.sampled_from(['run', 'desc', 'x']), st.integers(0, 99), max_size=3),
            rows=st.lists(st.tuples(st.integers(0, 9999), eighths.map(lambda v: v / 7), eighths, bools), max_size=8), none=bools), n=200,
       rule='at least one row and a note')
def metric_csv(c, ctx):
    s = None if c['none'] else io.StringIO()
    m = ops.migration_metric(s, header=c['header'], notes=dict(c['notes']) if c['notes'] else None)
    for g, a, b, ok in c['rows']:
        m(g, ind_with(a), ind_with(b), ok)
    if c['none']:
        return
    cols = list(c['notes']) + ['generation', 'migrant_fitness', 'contestant_fitness', 'success']
    lines = [r for r in _csv.reader(io.StringIO(s.getvalue()))]
    if c['header']:
        check(lines[:1] == [cols], 'header %r', lines[:1])
        lines = lines[1:]
    check(len(lines) == len(c['rows']), '%d rows', len(lines))
    for l, (g, a, b, ok) in zip(lines, c['rows']):
        check(l[:len(c['notes'])] == [str(v) for v in c['notes'].values()], 'notes %r', l)
        l = l[len(c['notes']):]
        check(int(l[0]) == g and float(l[1]) == a and float(l[2]) == b and l[3] == str(ok), 'row %r', l)
    ctx.nt(bool(c['rows']) and bool(c['notes']))
