from common import *
import itertools
from leap_ec import ops
from leap_ec.decoder import Decoder
from leap_ec.individual import RobustIndividual
from leap_ec.distrib.individual import DistributedIndividual
from leap_ec.problem import ScalarProblem

M = Module('P04')
M.boost = 2


class Custom(Exception):
    pass


class Deep(Custom, ValueError):
    def __str__(self):
        raise RuntimeError('unprintable')


EXC = {'ValueError': ValueError, 'ZeroDivisionError': ZeroDivisionError,
       'KeyError': KeyError, 'RuntimeError': RuntimeError, 'Custom': Custom,
       'AssertionError': AssertionError, 'StopIteration': StopIteration,
       'OSError': OSError, 'MemoryError': MemoryError, 'TypeError': TypeError,
       'ArithmeticError': ArithmeticError, 'AttributeError': AttributeError,
       'TimeoutError': TimeoutError, 'ImportError': ImportError,
       'RecursionError': RecursionError, 'NotImplementedError': NotImplementedError}
CLS = {'Robust': RobustIndividual, 'Distributed': DistributedIndividual}
outcome = st.one_of(
    st.tuples(st.just('ok'), eighths),
    st.tuples(st.sampled_from(['problem', 'decoder']), st.sampled_from(sorted(EXC))))


class Script:
    """Hands out scripted outcomes to whichever of decoder/problem is scripted
    to fail."""

    def __init__(self):
        self.now = None
        self.raised = None

    def boom(self, name):
        self.raised = EXC[name]('scripted %s' % name)
        raise self.raised


class D(Decoder):
    def __init__(self, s):
        self.s = s

    def decode(self, genome, *args, **kwargs):
        if self.s[int(genome[0])].now[0] == 'decoder':
            self.s[int(genome[0])].boom(self.s[int(genome[0])].now[1])
        return genome


class Pr(ScalarProblem):
    def __init__(self, s, mx):
        super().__init__(mx)
        self.s = s

    def evaluate(self, phenome, *args, **kwargs):
        sc = self.s[int(phenome[0])]
        if sc.now[0] == 'problem':
            sc.boom(sc.now[1])
        return sc.now[1]


@M.sub(case(cls=st.sampled_from(sorted(CLS)), maximize=bools,
            n=upto(1, 6, 30, 70),
            rounds=st.lists(st.tuples(
                st.sampled_from(['single', 'bulk', 'stream']),
                st.lists(outcome, min_size=6, max_size=6).map(lambda l: l * 12)), min_size=1, max_size=5),
            size=st.integers(1, 6)), n=700, shards=2,
       rule='some evaluation fails and some succeeds')
def histories(c, ctx):
    cls, mx, n = CLS[c['cls']], c['maximize'], c['n']
    scripts = [Script() for _ in range(n)]
    dec, prob = D(scripts), Pr(scripts, mx)
    pop = [cls(np.array([i]), decoder=dec, problem=prob) for i in range(n)]
    okc = badc = 0
    for route, outs in c['rounds']:
        for s, o in zip(scripts, outs):
            s.now, s.raised = o, None
        if route == 'single':
            for p in pop:
                f = p.evaluate()
                check(f == p.fitness or (math.isnan(f) and math.isnan(p.fitness)),
                      'evaluate() returned %r but set %r', f, p.fitness)
        elif route == 'bulk':
            check(same_list(cls.evaluate_population(pop), pop), 'population changed')
        else:
            out = list(itertools.islice(ops.evaluate(iter(pop)), n))
            check(same_list(out, pop), 'stream changed the individuals')
        for p, s in zip(pop, scripts):
            if s.now[0] == 'ok':
                okc += 1
                check(p.fitness == s.now[1], 'fitness %r, problem said %r', p.fitness, s.now[1])
                check(p.is_viable is True, 'successful evaluation not marked viable')
            else:
                badc += 1
                check(isinstance(p.fitness, float) and math.isnan(p.fitness),
                      'failed evaluation has fitness %r', p.fitness)
                check(p.is_viable is False, 'failed evaluation not marked non-viable')
                check(p.exception is s.raised, 'kept exception %r, raised %r',
                      p.exception, s.raised)
        good = [p for p in pop if p.is_viable]
        bad = [p for p in pop if not p.is_viable]
        for g in good:
            for b in bad:
                check(g > b and b < g and not (b > g) and not (b == g),
                      'non-viable does not lose against %r', g.fitness)
        k = min(c['size'], n)
        surv = ops.truncation_selection(list(pop), size=k)
        check(sum(1 for x in surv if x.is_viable) == min(k, len(good)),
              'truncation kept a non-viable over a viable individual')
        if good:
            check(max(pop).is_viable, 'best individual is non-viable')
    ctx.nt(okc > 0 and badc > 0)
    ctx.label('recovered', badc > 0 and len(c['rounds']) > 1)


@M.sub(case(o=st.sampled_from(['KeyboardInterrupt', 'SystemExit'])), n=4,
       rule='every case')
def plain_individual_raises(c, ctx):
    """A plain individual is not robust: the exception reaches the caller and
    leaves no fitness behind."""
    def f(x):
        raise ValueError('boom')
    ind = Individual(np.array([1]), problem=FunctionProblem(f, True))
    ctx.nt()
    check(raises(ValueError, ind.evaluate), 'plain individual swallowed an exception')
    check(ind.fitness is None, 'failed evaluation left a fitness')
