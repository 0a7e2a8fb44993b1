from common import *
import genomes as G
import itertools
from leap_ec.individual import RobustIndividual, WholeEvaluatedIndividual
from leap_ec.distrib.individual import DistributedIndividual
from leap_ec.decoder import Decoder
from leap_ec import ops
from leap_ec.problem import ScalarProblem

M = Module('P02')
M.boost = 3

CLASSES = {'Individual': Individual, 'Robust': RobustIndividual,
           'Whole': WholeEvaluatedIndividual, 'Distributed': DistributedIndividual}


class FlatDecoder(Decoder):
    def decode(self, genome, *args, **kwargs):
        return [('p', x) for x in G.flat(genome)]


class AnyProblem(ScalarProblem):
    def evaluate(self, phenome, *args, **kwargs):
        return float(len(phenome))


def clone_one(ind, via):
    if via == 0:
        return ind.clone()
    if via == 1:
        return next(ops.clone(iter([ind])))
    return next(ops.clone()(iter([ind, ind])))


op = st.one_of(
    st.tuples(st.just('clone'), st.integers(0, 20), st.integers(0, 2)),
    st.tuples(st.just('clone'), st.integers(0, 20), st.integers(0, 2)),
    st.tuples(st.just('poke'), st.integers(0, 20), st.integers(0, 20), st.integers(-9, 9)),
    st.tuples(st.just('eval'), st.integers(0, 20)),
    st.tuples(st.just('look'), st.integers(0, 20)),
    st.tuples(st.just('new'), st.lists(st.integers(-9, 9), min_size=1, max_size=5)),
    st.tuples(st.just('setgenome'), st.integers(0, 20), st.lists(st.integers(-9, 9), min_size=1, max_size=5)),
)


@M.sub(case(kind=st.sampled_from(G.KINDS), cls=st.sampled_from(sorted(CLASSES)),
            data=lists_upto(st.integers(-9, 9), 1, 6, 70, 600),
            ident=bools, ops=st.lists(op, min_size=1, max_size=25)), n=700, shards=3,
       rule='the history clones at least once and changes a genome in place '
            'after cloning')
def history(c, ctx):
    cls, kind = CLASSES[c['cls']], c['kind']
    decoder = IdentityDecoder() if c['ident'] else FlatDecoder()
    problem = AnyProblem(True)
    all_uuid = set()
    births = set()
    inds, model = [], []

    def register(ind, value, fitness, parents, tag):
        check(ind.uuid not in all_uuid, 'identifier reused')
        all_uuid.add(ind.uuid)
        if c['cls'] == 'Distributed':
            check(ind.birth_id not in births, 'birth id reused')
            births.add(ind.birth_id)
        inds.append(ind)
        model.append({'g': value, 'f': fitness, 'u': ind.uuid, 'p': set(parents),
                      'tag': tag})

    def verify():
        for ind, m in zip(inds, model):
            check(genome_value(ind.genome) == m['g'],
                  'genome changed unexpectedly: %r vs %r', ind.genome, m['g'])
            check(ind.uuid == m['u'], 'identifier changed')
            check(set(ind.parents) == m['p'], 'parents changed')
            check(ind.fitness == m['f'], 'fitness changed %r %r', ind.fitness, m['f'])
            check(ind.decoder is decoder and ind.problem is problem,
                  'decoder/problem not shared')
            check(type(ind) is cls, 'class changed')
            check(getattr(ind, 'tag', None) == m['tag'], 'extra attribute lost')

    def new(data, tag):
        i = cls(G.build(kind, data), decoder=decoder, problem=problem)
        i.tag = tag
        check(set(i.parents) == set() and i.fitness is None,
              'fresh individual has parents or fitness')
        register(i, genome_value(i.genome), None, set(), tag)

    new(c['data'], 't0')
    cloned = poked_after = False
    for step, o in enumerate(c['ops']):
        k = o[1] % len(inds) if isinstance(o[1], int) else 0
        if o[0] == 'new':
            new(o[1], 't%d' % step)
        elif o[0] == 'clone':
            before = snap(inds[k])
            child = clone_one(inds[k], o[2])
            cloned = True
            check(snap(inds[k]) == before, 'cloning modified the original')
            check(child is not inds[k], 'clone is the original')
            check(child.fitness is None, 'clone has a fitness')
            check(child.genome is not inds[k].genome or not isinstance(
                child.genome, (list, np.ndarray)), 'genome shared')
            register(child, model[k]['g'], None, {model[k]['u']}, model[k]['tag'])
            check(type(child.genome) is type(inds[k].genome), 'genome type changed')
        elif o[0] == 'poke':
            G.poke(inds[k].genome, kind, o[2], o[3])
            model[k]['g'] = genome_value(inds[k].genome)
            poked_after = poked_after or cloned
        elif o[0] == 'setgenome':
            # a variation operator replaces the genome and invalidates fitness
            inds[k].genome = G.build(kind, o[2])
            inds[k].fitness = None
            model[k]['g'] = genome_value(inds[k].genome)
            model[k]['f'] = None
        elif o[0] == 'eval':
            if c['cls'] != 'Whole':
                f = inds[k].evaluate()
                model[k]['f'] = f
        elif o[0] == 'look':
            inds[k].phenome
        verify()
    ctx.nt(cloned and poked_after)
    ctx.label(c['cls'])
    ctx.label(kind)


@M.sub(case(kind=st.sampled_from(G.KINDS), cls=st.sampled_from(sorted(CLASSES)),
            data=lists_upto(st.integers(-9, 9), 1, 6, 70, 600),
            pokes=st.lists(st.tuples(st.integers(0, 30), st.integers(-9, 9)), min_size=0, max_size=4),
            look=bools, evalfirst=bools, depth=st.integers(1, 4)), n=500,
       rule='the parent had been decoded or evaluated before cloning and the '
            'clone was changed before its phenome is read')
def phenome_of_clone(c, ctx):
    kind = c['kind']
    cur = CLASSES[c['cls']](G.build(kind, c['data']), decoder=FlatDecoder(),
                            problem=AnyProblem(True))
    for _ in range(c['depth']):
        if c['look']:
            cur.phenome
        if c['evalfirst'] and c['cls'] != 'Whole':
            cur.evaluate()
        child = cur.clone()
        for i, v in c['pokes']:
            G.poke(child.genome, kind, i, v)
        want = [('p', x) for x in G.flat(child.genome)]
        check(child.phenome == want, 'clone phenome %r is not decoded from its own '
              'genome %r', child.phenome, child.genome)
        cur = child
    ctx.nt((c['look'] or c['evalfirst']) and len(c['pokes']) > 0)


@M.sub(case(n=st.integers(1, 12), take=st.integers(1, 12)), n=200,
       rule='more than one individual streamed')
def stream(c, ctx):
    """The pipeline operator clones one for one, in order."""
    pop = [Individual(np.array([i]), problem=AnyProblem(True)) for i in range(c['n'])]
    for p in pop:
        p.evaluate()
    take = min(c['take'], c['n'])
    out = list(itertools.islice(ops.clone(iter(pop)), take))
    check(len(out) == take, 'wrong count')
    for p, o in zip(pop, out):
        check(o is not p and o.genome[0] == p.genome[0] and o.fitness is None
              and set(o.parents) == {p.uuid} and o.uuid != p.uuid
              and p.fitness == 1.0, 'streamed clone wrong')
    check(len({o.uuid for o in out} | {p.uuid for p in pop}) == take + c['n'],
          'identifiers not unique')
    ctx.nt(take > 1)
