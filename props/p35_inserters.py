from common import *
import logging
import random
from leap_ec.distrib.asynchronous import greedy_insert_into_pop, replace_if, tournament_insert_into_pop
from leap_ec.distrib.evaluate import is_viable
from leap_ec.distrib.individual import DistributedIndividual
from leap_ec.individual import RobustIndividual

M = Module('P35')
M.boost = 2
M.assumptions = ['A viable member whose fitness happens to be NaN may or may not yield to a newcomer with NaN fitness (the library flips a coin).']
logging.disable(logging.CRITICAL)

# (fitness, viable); non-viable individuals have NaN fitness
member = st.one_of(tied.map(lambda f: [f, True]), finite_fit.map(lambda f: [f, True]), infs.map(lambda f: [f, True]), st.just([math.nan, False]), st.just([math.nan, False]), st.just([math.nan, True]))


def mk(m, problem, cls):
    i = cls(np.array([1.0]), decoder=IdentityDecoder(), problem=problem)
    i.fitness = m[0]
    if cls is not Individual:
        i.is_viable = m[1]
    return i


def viable(i):
    return getattr(i, 'is_viable', True)


def key(i, mx):
    return score(i.fitness, mx)


def may_replace(new, old, mx):
    """(must, may) replace"""
    if not viable(old):
        return True, True
    a, b = key(new, mx), key(old, mx)
    if math.isnan(new.fitness) and math.isnan(old.fitness):
        return False, True
    return a > b, a > b


@M.sub(case(ms=st.one_of(st.lists(member, min_size=1, max_size=18), st.lists(member, min_size=1, max_size=18), st.lists(member, min_size=8, max_size=18).map(lambda l: (l * 9)[:80])), cap=upto(1, 7, 24, 40, 64), mx=bools, policy=st.sampled_from(['greedy', 'tournament']), cls=st.sampled_from(['dist', 'robust', 'plain'])),
       n=2500, shards=4, rule='more insertions than capacity, with both viable and non-viable individuals')
def history(c, ctx):
    random.seed(c['seed'])
    np.random.seed(c['seed'] % 2 ** 32)
    problem = FunctionProblem(lambda p: 0.0, c['mx'])
    cls = {'dist': DistributedIndividual, 'robust': RobustIndividual, 'plain': Individual}[c['cls']]
    ins = greedy_insert_into_pop if c['policy'] == 'greedy' else tournament_insert_into_pop
    pop = []
    mx = c['mx']
    for m in c['ms']:
        new = mk(m, problem, cls)
        check(bool(is_viable(new)) == (m[1] if cls is not Individual else True), 'is_viable of %r', m)
        before = list(pop)
        ins(new, pop, c['cap'])
        if len(before) < c['cap']:
            check(len(pop) == len(before) + 1 and any(x is new for x in pop) and all(any(x is y for y in pop) for x in before), 'insertion below capacity %d lost somebody', c['cap'])
            continue
        check(len(pop) == c['cap'], 'population of %d at capacity %d', len(pop), c['cap'])
        gone = [x for x in before if not any(x is y for y in pop)]
        added = any(x is new for x in pop)
        check(len(gone) == int(added), '%d members left and newcomer %s', len(gone), 'stayed' if added else 'was not taken')
        desc = [(x.fitness, viable(x)) for x in before]
        if added:
            must, may = may_replace(new, gone[0], mx)
            check(may, '%s: %r replaced %r', c['policy'], (new.fitness, viable(new)), (gone[0].fitness, viable(gone[0])))
        if c['policy'] == 'greedy':
            worst = min(key(x, mx) for x in before)
            cands = [x for x in before if key(x, mx) == worst]
            if added:
                check(any(x is gone[0] for x in cands), 'greedy replaced %r although a worse member is in %r', gone[0].fitness, desc)
            else:
                # some worst member was compared and kept
                check(any(not may_replace(new, x, mx)[0] for x in cands), 'greedy kept %r against newcomer %r', desc, (new.fitness, viable(new)))
        else:
            if all(may_replace(new, x, mx)[0] for x in before):
                check(added, 'tournament rejected %r better than everybody in %r', new.fitness, desc)
            if not any(may_replace(new, x, mx)[1] for x in before):
                check(not added, 'tournament took %r into %r', new.fitness, desc)
        good = [key(x, mx) for x in before if viable(x)]
        if good and max(good)[0]:
            check(max(key(x, mx) for x in pop) >= max(good), 'the best viable member was lost')
    ctx.nt(len(c['ms']) > c['cap'] and len({m[1] for m in c['ms']}) == 2)


@M.sub(case(ms=st.lists(member, min_size=1, max_size=6), new=member, idx=st.integers(0, 5), mx=bools), n=1200, shards=2, rule='the newcomer is better, or the member is non-viable')
def replacement(c, ctx):
    random.seed(c['seed'])
    problem = FunctionProblem(lambda p: 0.0, c['mx'])
    pop = [mk(m, problem, DistributedIndividual) for m in c['ms']]
    new = mk(c['new'], problem, DistributedIndividual)
    k = c['idx'] % len(pop)
    before = list(pop)
    replace_if(new, pop, k)
    must, may = may_replace(new, before[k], c['mx'])
    check(len(pop) == len(before) and all(a is b for j, (a, b) in enumerate(zip(pop, before)) if j != k), 'other members changed')
    check(pop[k] is new or pop[k] is before[k], 'member replaced by somebody else')
    check((pop[k] is not new) or may, 'replaced %r by %r', c['ms'][k], c['new'])
    check((pop[k] is new) or not must, 'kept %r against %r', c['ms'][k], c['new'])
    ctx.nt(must)


@M.sub(case(n=upto(2, 6, 12), mx=bools), n=10, shards=2, mult=6, rule='always')
def uniform_opponent(c, ctx):
    """The tournament opponent is a uniformly random member."""
    random.seed(c['seed'])
    np.random.seed(c['seed'] % 2 ** 32)
    problem = FunctionProblem(lambda p: 0.0, c['mx'])
    new = mk([1000.0 if c['mx'] else -1000.0, True], problem, DistributedIndividual)
    members = [mk([float(j), True], problem, DistributedIndividual) for j in range(c['n'])]
    N = 1500
    hits = [0] * c['n']
    for _ in range(N):
        pop = list(members)
        tournament_insert_into_pop(new, pop, c['n'])
        gone = [j for j, x in enumerate(members) if not any(x is y for y in pop)]
        check(len(gone) == 1, 'the best newcomer replaced %d members', len(gone))
        hits[gone[0]] += 1
    for j in range(c['n']):
        check_binom(hits[j], N, 1 / c['n'], 'member %d of %d was the opponent' % (j, c['n']))
    ctx.nt(True)
