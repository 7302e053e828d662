"""Replaying walks through a graph of coordinate transforms on batches of
points, in every shape the API accepts (scalar, list, tuple, array)."""
import copy
import numpy as np
from common import q as proj

KINDS = ('array', 'list', 'tuple', 'scalar')


def shaped(v, kind):
    v = np.asarray(v, dtype=float)
    if kind == 'array':
        return v.copy()
    if kind == 'list':
        return [float(x) for x in v]
    if kind == 'tuple':
        return tuple(float(x) for x in v)
    raise ValueError(kind)


def same_args(a, b):
    for x, y in zip(a, b):
        if isinstance(x, np.ndarray):
            if not np.array_equal(x, y, equal_nan=True):
                return False
        elif isinstance(x, (list, tuple)):
            if list(x) != list(y):
                return False
    return True


def call(fn, comps, params, kind, shared=False):
    """fn(*component vectors, **params); params are vectors of the same length.
    Returns (components as arrays, pure)."""
    n = len(comps[0])
    if kind == 'scalar':
        out = None
        for i in range(n):
            r = fn(*[float(c[i]) for c in comps], **{k: float(v[i]) for k, v in params.items()})
            r = [np.asarray(x).reshape(-1) for x in r]
            for x in r:
                if x.size != 1:
                    raise ValueError('scalar call returned %d values' % x.size)
            if out is None:
                out = [[] for _ in r]
            for o, x in zip(out, r):
                o.append(x[0])
        return [np.array(o) for o in out], True
    args = [shaped(c, kind) for c in comps]
    kw = {k: (float(v[0]) if shared else shaped(v, kind)) for k, v in params.items()}
    before = copy.deepcopy((args, kw))
    r = fn(*args, **kw)
    pure = same_args(args, before[0]) and same_args(list(kw.values()), list(before[1].values()))
    r = [np.asarray(x) for x in r]
    for x in r:
        if x.shape != (n,):
            raise ValueError('batch of %d returned shape %s' % (n, x.shape))
    return r, pure
