"""Reference oracles for multi-objective checks, independent of leap_ec."""
import math

import numpy as np

from common import st, check
from leap_ec import Individual
from leap_ec.decoder import IdentityDecoder
from leap_ec.multiobjective.problems import MultiObjectiveProblem


class MO(MultiObjectiveProblem):
    """Objectives = the phenome itself."""

    def evaluate(self, phenome, *a, **k):
        return np.array(phenome, dtype=float)


class Ind(Individual):
    pass


def dominates(a, b, mask):
    """a dominates b; mask[i] True = maximise objective i."""
    ge = all((x >= y) if m else (x <= y) for x, y, m in zip(a, b, mask))
    gt = any((x > y) if m else (x < y) for x, y, m in zip(a, b, mask))
    return ge and gt


def peel(vecs, mask):
    """Ranks (1-based) by repeatedly removing the non-dominated set."""
    n = len(vecs)
    if n == 0:
        return []
    if n > 12:
        V = np.array(vecs, dtype=float) * np.where(list(mask), 1.0, -1.0)
        ge = np.all(V[:, None, :] >= V[None, :, :], axis=2)
        D = ge & ~ge.T                  # D[i, j]: i dominates j
    else:
        D = np.array([[i != j and dominates(vecs[i], vecs[j], mask) for j in range(n)] for i in range(n)])
    rank = np.zeros(n, dtype=int)
    r = 0
    while (rank == 0).any():
        r += 1
        left = rank == 0
        rank[left & ~D[left].any(axis=0)] = r
    return rank.tolist()


def crowding_bounds(vecs):
    """(lo, hi, must_inf) crowding distance intervals for one front over all orders of tied values;
    lo == hi when no value is tied.  Also the groups of which at least one member must be infinite."""
    n = len(vecs)
    lo, hi = [0.0] * n, [0.0] * n
    groups = []
    for o in range(len(vecs[0]) if vecs else 0):
        vals = sorted(set(v[o] for v in vecs))
        if len(vals) < 2:
            continue
        rng = vals[-1] - vals[0]
        by = {}
        for i, v in enumerate(vecs):
            by.setdefault(v[o], []).append(i)
        for k, v in enumerate(vals):
            g = by[v]
            ext = k in (0, len(vals) - 1)
            if ext:
                groups.append(g)
            for i in g:
                if ext:
                    if len(g) == 1:
                        lo[i] = math.inf
                    hi[i] = math.inf
                else:
                    gap = (vals[k + 1] - vals[k - 1]) / rng
                    hi[i] += gap
                    if len(g) == 1:
                        lo[i] += gap
    return lo, hi, groups


def check_crowding(vecs, dist, what):
    lo, hi, groups = crowding_bounds(vecs)
    for i, d in enumerate(dist):
        d = float(d)
        check(not math.isnan(d) and d >= 0, '%s: crowding distance %r', what, d)
        tol = 1e-9 * (1 + (0 if math.isinf(d) else d))
        check(d >= lo[i] - tol if not math.isinf(lo[i]) else math.isinf(d), '%s: crowding distance of %r is %r, expected at least %r in %r', what, vecs[i], d, lo[i], vecs)
        check(d <= hi[i] + tol, '%s: crowding distance of %r is %r, expected at most %r in %r', what, vecs[i], d, hi[i], vecs)
    for g in groups:
        check(any(math.isinf(float(dist[i])) for i in g), '%s: no extreme individual of %r is infinite', what, [vecs[i] for i in g])
    # one individual at either end of each objective's order, not every tied one
    inf = sum(math.isinf(float(d)) for d in dist)
    check(inf <= len(groups), '%s: %d infinite crowding distances for %d ends of the front %r', what, inf, len(groups), vecs)


coord = st.one_of(st.integers(-3, 3).map(float), st.integers(-3, 3).map(float), st.integers(-400, 400).map(lambda i: i / 8))
tiny = st.integers(-40, 40).map(lambda i: i / 2.0 ** 40)
fine = st.integers(-10 ** 6, 10 ** 6).map(lambda i: i / 1024)


@st.composite
def mo_pop(draw, min_size=1, max_size=14, extra=()):
    m = draw(st.one_of(st.integers(1, 4), st.integers(1, 4), st.integers(1, 4), st.integers(5, 10)))
    mask = draw(st.lists(st.booleans(), min_size=m, max_size=m))
    c = draw(st.sampled_from([coord, fine, st.integers(0, 2).map(float), tiny]))
    vecs = draw(st.lists(st.lists(c, min_size=m, max_size=m), min_size=min_size, max_size=max_size))
    if draw(st.booleans()) and len(vecs) > 1:       # trade-off front: mutually non-dominated
        for k, v in enumerate(vecs):
            if draw(st.integers(0, 3)):
                v[0] = float(k) if mask[0] else -float(k)
                if m > 1:
                    v[1] = -float(k) if mask[1] else float(k)
    if draw(st.integers(0, 3)) == 0 and len(vecs) > 1:
        vecs[-1] = list(vecs[0])
    return dict(mask=mask, vecs=vecs)


def make(vecs, mask, problem=None):
    problem = problem or MO(maximize=mask)
    out = []
    for k, v in enumerate(vecs):
        i = Ind(np.array(v, dtype=float), decoder=IdentityDecoder(), problem=problem)
        i.fitness = np.array(v, dtype=float)
        i.tag = k
        out.append(i)
    return out
