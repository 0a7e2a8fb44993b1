from common import *
import itertools
from toolz import pipe
from leap_ec import ops
from leap_ec.individual import RobustIndividual
from leap_ec.binary_rep.ops import mutate_bitflip, genome_mutate_bitflip
from leap_ec.real_rep.ops import mutate_gaussian, genome_mutate_gaussian
from leap_ec.int_rep.ops import mutate_randint, mutate_binomial
from leap_ec.segmented_rep import ops as sops
from leap_ec.executable_rep.cgp import CGPDecoder, cgp_mutate
from leap_ec.executable_rep.cgp import create_cgp_vector
import genomes as G

M = Module('P05')
M.boost = 2

L = 6
BOUNDS = [(-5, 5)] * L
PROB = st.sampled_from([0.0, 0.2, 0.5, 1.0])


def xover(o):
    kind, p, flag, k = o
    if kind == 'uniform':
        return ops.UniformCrossover(p_swap=p, p_xover=[1.0, 0.5][flag])
    return ops.NAryCrossover(num_points=k, p_xover=[1.0, 0.5][flag])


def binary_op(o):
    if o[0] == 'mutate':
        return mutate_bitflip(probability=o[1])
    if o[0] == 'mutate2':
        return mutate_bitflip(expected_num_mutations=o[3])
    return xover(o)


def real_op(o):
    if o[0] == 'mutate':
        return mutate_gaussian(std=1.0, expected_num_mutations='isotropic', bounds=(-20, 20))
    if o[0] == 'mutate2':
        return mutate_gaussian(std=0.5, expected_num_mutations=o[3])
    return xover(o)


def int_op(o):
    if o[0] == 'mutate':
        return mutate_randint(bounds=BOUNDS, probability=o[1])
    if o[0] == 'mutate2':
        return mutate_binomial(std=1.5, bounds=BOUNDS, expected_num_mutations=o[3])
    return xover(o)


def seg_op(o):
    if o[0] == 'mutate':
        return sops.apply_mutation(mutator=genome_mutate_bitflip, expected_num_mutations=1.0)
    if o[0] == 'mutate2':
        return sops.add_segment(seq_initializer=lambda: np.array([1, 0, 1]),
                                probability=o[1], append=o[2] == 1)
    if o[0] == 'uniform':
        return sops.copy_segment(probability=o[1], append=o[2] == 1)
    if o[0] == 'remove':
        return sops.remove_segment(probability=o[1])
    return ops.NAryCrossover(num_points=1, p_xover=[1.0, 0.5][o[2]])


CGP = CGPDecoder(primitives=[lambda a, b: a, lambda a, b: b], num_inputs=2,
                 num_outputs=1, num_layers=3, nodes_per_layer=1, max_arity=2)


def cgp_op(o):
    if o[0] in ('mutate', 'mutate2'):
        return cgp_mutate(CGP, probability=o[1])
    return xover(o)


FAM = {'binary': binary_op, 'real': real_op, 'int': int_op, 'seg': seg_op, 'cgp': cgp_op}


def mk(fam, data):
    if fam == 'binary':
        return np.array([d % 2 for d in data])
    if fam == 'real':
        return np.array(data, dtype=float)
    if fam == 'int':
        return np.array(data)
    if fam == 'cgp':
        b = CGP.bounds()
        return np.array([lo + data[i % L] % (hi - lo + 1) for i, (lo, hi) in enumerate(b)])
    return [np.array([d % 2 for d in data[:3]]), np.array([d % 2 for d in data[3:]])]


op = st.tuples(st.sampled_from(['mutate', 'mutate2', 'uniform', 'nary', 'nary', 'remove', 'uniform']),
               PROB, st.integers(0, 1), st.integers(1, 3))
SELECT = ['tournament', 'random', 'cyclic', 'naive']


@M.sub(case(fam=st.sampled_from(sorted(FAM)),
            pop=lists_upto(st.lists(st.integers(-5, 5), min_size=L, max_size=L), 2, 6, 40, 70),
            ops=st.lists(op, min_size=1, max_size=4), take=upto(1, 9, 40, 75),
            sel=st.sampled_from(SELECT), robust=bools, gens=st.integers(1, 2), raw=st.integers(0, 15),
            reeval=bools),
       n=900, shards=3,
       rule='some offspring genome differs from the parent it was cloned from')
def pipelines(c, ctx):
    fam = c['fam']
    prob = FunctionProblem(lambda p: G.total(p), True)
    cls = RobustIndividual if c['robust'] else Individual
    parents = [cls(mk(fam, d), decoder=IdentityDecoder(), problem=prob) for d in c['pop']]
    for k, p in enumerate(parents):
        # parents may still be unevaluated unless selection needs their fitness
        if c['sel'] == 'tournament' or not (c['raw'] >> (k % 4)) & 1:
            p.evaluate()
    if fam == 'seg':
        c['ops'] = [o for o in c['ops']]
    oplist = []
    for o in c['ops']:
        if o[0] == 'remove' and fam != 'seg':
            o = ['mutate'] + o[1:]
        oplist.append((o, FAM[fam](o)))
    for _ in range(c['gens']):
        before = [snap(p) for p in parents]
        order = list(parents)
        sel = {'tournament': ops.tournament_selection, 'random': ops.random_selection,
               'cyclic': ops.cyclic_selection, 'naive': ops.naive_cyclic_selection}[c['sel']]
        clones = []

        def tap(it):
            for x in it:
                clones.append((x, genome_value(x.genome), set(x.parents)))
                yield x
        off = pipe(parents, sel, ops.clone, tap, *[f for _, f in oplist],
                   ops.pool(size=c['take']))
        check(len(off) == c['take'], 'wrong number of offspring')
        check(same_list(parents, order), 'parent list was modified')
        check([snap(p) for p in parents] == before, 'a parent was modified by the '
              'offspring pipeline')
        known = {p.uuid for p in parents}
        by_id = {id(x): (gv, par) for x, gv, par in clones}
        for o in off:
            check(not any(o is p for p in parents), 'parent emitted as offspring')
            check(id(o) in by_id, 'offspring is not one of the clones')
            gv, par = by_id[id(o)]
            check(set(o.parents) <= known and len(o.parents) >= 1,
                  'offspring parents are not in the parent population')
            check(par <= set(o.parents), 'offspring forgot the individual it was cloned from')
            if genome_value(o.genome) != gv:
                ctx.nt()
                check(o.fitness is None, 'offspring genome changed but fitness is %r', o.fitness)
            else:
                check(o.fitness is None, 'unevaluated offspring has fitness %r', o.fitness)
        off = ops.pool(ops.evaluate(iter(off)), size=len(off))
        for o in off:
            check(close(o.fitness, G.total(o.genome)), 'fitness does not belong to genome')
        check([snap(p) for p in parents] == before, 'a parent changed during evaluation')
        parents = off if len(off) >= 2 else parents
    ctx.label(fam)


@M.sub(case(fam=st.sampled_from(sorted(FAM)),
            pop=st.lists(st.lists(st.integers(-5, 5), min_size=L, max_size=L), min_size=2, max_size=6),
            ops=st.lists(op, min_size=1, max_size=3),
            skip=st.sampled_from([0, 0, 0, 1, 2, 3, 5, 10, 21, 42])),
       n=900, shards=2,
       rule='some individual that entered with a fitness left with a different genome')
def stale_fitness(c, ctx):
    """Already evaluated individuals fed straight into variation operators (as
    after a second evaluation in the pipeline) never keep a fitness that belongs
    to another genome."""
    fam = c['fam']
    prob = FunctionProblem(lambda p: G.total(p), True)
    inds = [Individual(mk(fam, d), decoder=IdentityDecoder(), problem=prob) for d in c['pop']]
    for k, i in enumerate(inds):
        if not (c['skip'] >> k) & 1:     # some mates may still be unevaluated
            i.evaluate()
    before = {id(i): genome_value(i.genome) for i in inds}
    n = len(inds) - len(inds) % 2
    oplist = []
    for o in c['ops']:
        if o[0] == 'remove' and fam != 'seg':
            o = ['mutate'] + o[1:]
        oplist.append(FAM[fam](o))
    out = pipe(iter(inds), *oplist, lambda g: list(itertools.islice(g, n)))
    check(same_list(out, inds[:n]), 'variation changed identity or order')
    for i in out:
        if genome_value(i.genome) != before[id(i)]:
            ctx.nt()
            check(i.fitness is None, '%s: genome changed but stale fitness %r kept', fam, i.fitness)
        elif i.fitness is not None:
            check(close(i.fitness, G.total(i.genome)), 'fitness altered without evaluation')
    ctx.label(fam)
