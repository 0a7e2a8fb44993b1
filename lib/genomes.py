"""Genome builders: flat integer data -> a structured genome, with helpers for
in-place mutation and flattening."""
import numpy as np

KINDS = ['f1', 'i1', 'b1', 'list', 'segs', 'nested', 'f2', 'strlist', 'segs_list', 'obj', 'segarr']


def build(kind, data):
    """data: non-empty list of small ints."""
    if kind == 'f1':
        return np.array(data, dtype=float)
    if kind == 'i1':
        return np.array(data, dtype=int)
    if kind == 'b1':
        return np.array([d % 2 for d in data], dtype=bool)
    if kind == 'list':
        return list(data)
    if kind == 'strlist':
        return [chr(97 + d % 26) for d in data]
    if kind == 'segs':
        h = max(1, len(data) // 2)
        segs = [np.array(data[:h]), np.array(data[h:])]
        return [s for s in segs if len(s)]
    if kind == 'segs_list':
        h = max(1, len(data) // 2)
        return [s for s in ([*data[:h]], [*data[h:]]) if s]
    if kind == 'nested':
        return [[[d] for d in data], np.array(data, dtype=float)]
    if kind == 'f2':
        return np.array([data, data], dtype=float)
    if kind == 'obj':           # object array of lists
        g = np.empty(len(data), dtype=object)
        for i, d in enumerate(data):
            g[i] = [d]
        return g
    if kind == 'segarr':        # object array of arrays
        g = np.empty(len(data), dtype=object)
        for i, d in enumerate(data):
            g[i] = np.array([d, d + 1])
        return g
    raise ValueError(kind)


def poke(g, kind, i, v):
    """Change one gene in place."""
    if kind in ('f1', 'i1', 'list'):
        g[i % len(g)] = v
    elif kind == 'b1':
        g[i % len(g)] = not g[i % len(g)]
    elif kind in ('obj', 'segarr'):
        g[i % len(g)][0] = v
    elif kind == 'strlist':
        g[i % len(g)] = chr(97 + v % 26)
    elif kind in ('segs', 'segs_list'):
        s = g[i % len(g)]
        s[(i // len(g)) % len(s)] = v
    elif kind == 'nested':
        if i % 2:
            g[0][(i // 2) % len(g[0])][0] = v
        else:
            g[1][(i // 2) % len(g[1])] = v
    elif kind == 'f2':
        g[i % 2, (i // 2) % g.shape[1]] = v


def flat(g):
    if isinstance(g, np.ndarray):
        return [y for x in g for y in flat(x)] if g.dtype == object else [x for x in g.ravel().tolist()]
    if isinstance(g, (list, tuple)):
        return [y for x in g for y in flat(x)]
    return [g]


def total(g):
    return float(sum(ord(x) if isinstance(x, str) else float(x) for x in flat(g)))
