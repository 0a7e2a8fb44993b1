"""Shared generators and helpers for the property modules."""
import copy
import math

import numpy as np

from engine import Module, Violation, st            # noqa: F401

from leap_ec import Individual                      # noqa: E402
from leap_ec.decoder import IdentityDecoder         # noqa: E402
from leap_ec.problem import FunctionProblem         # noqa: E402

seeds = st.integers(0, 2 ** 31 - 1)
bools = st.booleans()


def upto(lo, hi, *big):
    """Mostly small sizes, now and then one of the big ones."""
    return st.one_of(*([st.integers(lo, hi)] * 7), st.sampled_from(big))


def lists_upto(elem, lo, hi, *big):
    """Mostly short lists, now and then a long one (a short one repeated)."""
    short = st.lists(elem, min_size=lo, max_size=hi)
    base = st.lists(elem, min_size=max(1, lo), max_size=hi)
    return st.one_of(*([short] * 9), st.tuples(base, st.sampled_from(big)).map(lambda t: [t[0][i % len(t[0])] for i in range(t[1])]))


def case(**kw):
    kw.setdefault('seed', seeds)
    return st.fixed_dictionaries(kw)


# Fitness values that are exactly representable and never within the library's
# documented comparison tolerance (1e-9 relative) unless equal.
eighths = st.integers(-800, 800).map(lambda i: i / 8)
small_ints = st.integers(-4, 4)
# few distinct values => many ties
tied = st.sampled_from([-2.5, -1.0, 0.0, 0.5, 1.0, 3.0])
big = st.integers(-10 ** 6, 10 ** 6).map(lambda i: i * 1024.0)
finite_fit = st.one_of(eighths, tied, big)
infs = st.sampled_from([math.inf, -math.inf])
nan = st.just(math.nan)
any_fit = st.one_of(finite_fit, finite_fit, finite_fit, infs, nan)


def isnan(x):
    return isinstance(x, float) and math.isnan(x)


def score(f, maximize):
    """Total preorder key: larger is better, NaN worst of all."""
    if math.isnan(f):
        return (0, 0.0)
    return (1, f if maximize else -f)


class TableProblem(FunctionProblem):
    """Objective = sum of the phenome; picklable and direction-configurable."""

    def __init__(self, maximize=True):
        super().__init__(lambda p: float(np.sum(p)), maximize)


def ind_with(fitness, maximize=True, problem=None, genome=None, cls=Individual):
    problem = problem or FunctionProblem(lambda p: 0.0, maximize)
    ind = cls(np.array([0]) if genome is None else genome,
              decoder=IdentityDecoder(), problem=problem)
    ind.fitness = fitness
    return ind


def pop_with(fitnesses, maximize=True, cls=Individual):
    """A population with preset fitnesses, genome = [index]."""
    problem = FunctionProblem(lambda p: float(np.sum(p)), maximize)
    return [ind_with(f, problem=problem, genome=np.array([i, 7]), cls=cls)
            for i, f in enumerate(fitnesses)]


def idx_of(ind, pop):
    """Index of ind in pop by identity (Individual == means equal fitness)."""
    for i, x in enumerate(pop):
        if x is ind:
            return i
    raise Violation('result contains an individual that is not in the '
                    'population: %r' % (ind,))


def ids(pop):
    return [id(x) for x in pop]


def same_list(a, b):
    """Same objects, same order."""
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def genome_value(g):
    """A comparable deep snapshot of a genome (value, structure, dtype kind)."""
    if isinstance(g, np.ndarray):
        return ('nd', g.shape, [genome_value(x) for x in g] if g.dtype == object else g.tolist())
    if isinstance(g, (list, tuple)):
        return (type(g).__name__, [genome_value(x) for x in g])
    return copy.deepcopy(g)


def snap(ind):
    return (genome_value(ind.genome), repr(ind.fitness), ind.uuid,
            frozenset(ind.parents), id(ind.decoder), id(ind.problem))


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def close(a, b, rel=1e-9, abs_=1e-9):
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= max(abs_, rel * max(abs(a), abs(b)))


def raises(exc, f, *a, **k):
    try:
        f(*a, **k)
    except exc:
        return True
    return False


def zscore(count, n, p):
    """Standardised deviation of a binomial count; 0 when p is degenerate and
    the count agrees, inf when it disagrees."""
    var = n * p * (1 - p)
    if var <= 0:
        return 0.0 if abs(count - n * p) < 1e-9 else math.inf
    return abs(count - n * p) / math.sqrt(var)


def check_binom(count, n, p, what, sigmas=6.5):
    """A >= 6.5 sigma deviation (with a continuity/skew allowance)."""
    if p <= 0 or p >= 1:
        check(abs(count - n * min(max(p, 0), 1)) < 0.5,
              '%s: %d of %d, expected probability %g', what, count, n, p)
        return
    sd = math.sqrt(n * p * (1 - p))
    check(abs(count - n * p) <= sigmas * sd + 6,
          '%s: observed %d of %d but expected probability %g', what, count, n, p)
