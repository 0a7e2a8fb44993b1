"""Shared statistical oracles with bounds far beyond chance (>= 6.5 sigma)."""
import math

import numpy as np

from common import check, check_binom


def check_mask_matrix(mask, p, what):
    """mask: N x n boolean matrix of independent Bernoulli(p) events."""
    N, n = mask.shape
    for j in range(n):
        check_binom(int(mask[:, j].sum()), N, p, '%s, gene %d' % (what, j))
    for j in range(n):
        for k in range(j + 1, n):
            check_binom(int((mask[:, j] & mask[:, k]).sum()), N, p * p,
                        '%s, genes %d and %d together' % (what, j, k))
    if n > 1:
        check_binom(int(mask.all(axis=1).sum()), N, p ** n, '%s, all genes' % what)
        check_binom(int((~mask).all(axis=1).sum()), N, (1 - p) ** n, '%s, no gene' % what)
    if N > 2:
        for j in range(n):
            check_binom(int((mask[1:, j] & mask[:-1, j]).sum()), N - 1, p * p,
                        '%s, gene %d in consecutive applications' % (what, j))


def check_normal(z, what):
    """z: sample that should be standard normal."""
    N = len(z)
    if N < 30:
        return
    check(abs(float(np.mean(z))) <= 6.5 / math.sqrt(N), '%s: mean %g over %d steps',
          what, float(np.mean(z)), N)
    check(abs(float(np.mean(z ** 2)) - 1) <= 6.5 * math.sqrt(2.0 / N) * 1.6 + 40.0 / N,
          '%s: variance %g over %d steps', what, float(np.mean(z ** 2)), N)
    for q, p in ((0.6744897501960817, 0.5), (1.6448536269514722, 0.9),
                 (0.2533471031357997, 0.2)):
        check_binom(int((np.abs(z) < q).sum()), N, p, '%s: |z| < %g' % (what, q))
    check_binom(int((z > 0).sum()), N, 0.5, '%s: positive steps' % what)


def check_uniform_reals(x, lo, hi, what, bins=5):
    N = len(x)
    check(float(np.min(x)) >= lo and float(np.max(x)) <= hi, '%s: outside [%g, %g]', what, lo, hi)
    if hi == lo:
        return
    u = (np.asarray(x, dtype=float) - lo) / (hi - lo)
    for b in range(bins):
        check_binom(int(((u >= b / bins) & (u < (b + 1) / bins)).sum()), N, 1 / bins,
                    '%s: bin %d' % (what, b))


def check_uniform_ints(x, lo, hi, what):
    N = len(x)
    for v in range(lo, hi + 1):
        check_binom(int((x == v).sum()), N, 1 / (hi - lo + 1), '%s: value %d' % (what, v))
    check(all(lo <= int(v) <= hi for v in x), '%s: outside [%d, %d]', what, lo, hi)
