"""Enumerations of problems shared by the checks: index structures, joint populations, scale ladders."""
import itertools

import numpy as np

from lib import ref


def tuples(D, maxlen=None):
    """All non-empty ordered selections of distinct dimensions, simplest first."""
    return [t for n in range(1, (maxlen or D) + 1) for t in itertools.permutations(range(D), n)]


def structures(D, n, maxlen=None):
    """All lists of n ordered marginal indices that cover D dimensions."""
    for c in itertools.product(tuples(D, maxlen), repeat=n):
        if len(set().union(*c)) == D:
            yield c


def all_arrays(shape, values):
    for v in itertools.product(values, repeat=int(np.prod(shape))):
        yield np.array(v, dtype=np.int64).reshape(shape)


def mixed(shape, seed=0, hi=5, zeros=0):
    """A deterministic array with irregular entries (a fixed linear congruence), optionally with every zeros-th cell 0."""
    n = int(np.prod(shape))
    x = 12345 + 7919 * seed
    out = []
    for i in range(n):
        x = (1103515245 * x + 12345) & 0x7FFFFFFF
        v = (x >> 8) % (hi + 1)
        if zeros and i % zeros == 0:
            v = 0
        out.append(v)
    a = np.array(out, dtype=np.int64).reshape(shape)
    if a.sum() == 0:
        a.ravel()[-1] = 1
    return a


class Several:
    """Joint populations with the same one-dimensional marginals, one for each marginal of a problem: what is asked for
    agrees in every dimension, but (where two dimensions or more are shared) no population has it all."""

    def __init__(self, parts):
        self.parts = parts
        self.ndim, self.shape, self.size = parts[0].ndim, parts[0].shape, parts[0].size

    def sum(self):
        return self.parts[0].sum()

    def tolist(self):
        return [p.tolist() for p in self.parts]


def several(shape, K, seed=0):
    j = mixed(shape, seed, 2) + 1
    parts = []
    for k in range(K):
        p = j.copy()
        a, b = [(0, 1), (0, 2), (1, 2)][(k + seed) % 3] if len(shape) > 2 else (0, 1)
        at = [0] * len(shape)
        for x in (0, 1):
            for y in (0, 1):
                at[a], at[b] = x, y
                p[tuple(at)] += 1 if (x + y + k) % 2 else -1
        parts.append(p)
    return Several(parts)


def clashing(D, n):
    """Structures some of whose marginals share two dimensions or more."""
    for s in structures(D, n):
        if any(len(set(a) & set(b)) > 1 for a, b in itertools.combinations(s, 2)):
            yield s


def margs(joint, structure):
    if isinstance(joint, Several):
        return [ref.project(p, i) for p, i in zip(joint.parts, structure)]
    return [ref.project(joint, i) for i in structure]


# (shape, structure): larger and stranger problems, one feature pushed at a time
LADDER = [
    ((2,) * 5, [(0,), (1,), (2,), (3,), (4,)]),
    ((2, 3, 2, 3, 2), [(0, 1), (1, 2), (2, 3), (3, 4)]),
    ((2, 3, 2, 3, 2), [(4, 3), (3, 2), (2, 1), (1, 0)]),
    ((3, 2, 4, 2), [(0, 1, 2), (2, 3)]),
    ((3, 2, 4, 2), [(2, 0, 1), (3, 2)]),
    ((3, 2, 4, 2), [(3, 2), (1, 2, 0)]),
    ((3, 2, 4, 2), [(1, 3, 0, 2), (2,)]),
    ((2, 3, 4, 2, 3, 2), [(0, 1, 2, 3), (0, 4, 5)]),
    ((2, 3, 4, 2, 3, 2), [(0, 4, 5), (0, 1, 2, 3)]),
    ((2, 3, 4, 2, 3, 2), [(5, 4, 0), (3, 2, 0, 1)]),
    ((2, 3, 4, 2, 3, 2), [(0, 1, 2), (0, 3, 4, 5)]),
    ((2, 3, 4, 2, 3, 2), [(2, 3), (3, 0, 5), (5, 1), (4,)]),
    ((2, 2, 3, 2), [(0, 1, 2), (1, 2, 3)]),          # shares two dimensions with one earlier marginal
    ((2, 2, 3, 2), [(0, 1, 2), (3, 2, 1)]),
    ((3, 2, 2, 2), [(0, 1, 2), (2, 1, 3), (0, 1)]),
    ((2,) * 7, [(0, 1), (2,), (3, 4), (4, 5), (6,)]),
    ((2,) * 8, [(i,) for i in range(8)]),
    ((2,) * 8, [(7 - i,) for i in range(8)]),
    ((2,) * 10, [(i, i + 1) for i in range(9)]),
    ((2,) * 12, [(0, 1), (1, 2), (3, 4), (4, 5), (5, 6), (7, 8), (8, 9), (10, 11)]),
    ((300, 2), [(0,), (1,)]),
    ((2, 300), [(0,), (1,)]),
    ((70, 70), [(1,), (0,)]),
    ((40, 3, 20), [(0, 1), (1, 2)]),
    ((3, 40, 20), [(1, 0), (2, 0)]),
    ((1, 4, 1, 3), [(0, 1), (2, 3)]),
    ((5, 1), [(0,), (1,)]),
    ((1, 1), [(0,), (1,)]),
    ((9, 8, 7), [(0,), (1,), (2,)]),
    ((9, 8, 7), [(2,), (0, 1)]),
    ((9, 8, 7), [(0, 1), (0, 2)]),
    ((9, 8, 7), [(0, 1), (0, 2), (0,), (1,), (2,)]),
    # every pair, every triple; marginals of five and more dimensions; many marginals that converge at different speeds
    ((3, 2, 3, 2), [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)]),
    ((2, 2, 2, 3), [(3, 2, 1), (0, 1, 2), (2, 3, 0), (1, 0, 3)]),
    ((3, 3, 2, 3), [(0,), (1,), (2,), (3, 0), (0, 1), (1, 2), (2, 3)]),
    ((2, 3, 2, 2, 2), [(0, 1, 2, 3, 4), (3, 4)]),
    ((2, 2, 3, 2, 2, 2), [(5, 3, 1, 0, 2), (4, 2, 0)]),
    ((2, 2, 3, 2, 2, 2), [(4,), (3, 5, 1, 4, 2, 0)]),
    ((2, 2, 2, 2, 2, 2, 2), [(6, 0), (0, 5, 1, 4, 2, 3)]),
]


def sparse(shape, n, seed=0):
    """A few individuals spread over a large array, its last cell and its last categories included."""
    size = int(np.prod(shape))
    a = np.zeros(size, dtype=np.int64)
    for i in range(n):
        a[(size - 1 - i * (size // n + 1 + seed)) % size] += 1 + (i + seed) % 3
    return a.reshape(shape)


_MAXDIMS = 64 if int(np.__version__.split(".")[0]) > 1 else 32

# one feature pushed to an extreme: to be populated by sparse()
EXTREME = [
    ((1,) * 26 + (2, 1, 3, 2), [(d,) for d in range(30)]),
    ((1,) * (_MAXDIMS - 2) + (2, 3), [(d,) for d in reversed(range(_MAXDIMS))]),
    ((2,) + (1,) * (_MAXDIMS - 3) + (3, 2), [(d, d + 1) for d in range(_MAXDIMS - 1)]),
    ((3,) + (1,) * 18 + (2,), [tuple(range(20)), (19,)]),
    ((70000, 2), [(0,), (1,)]),
    ((2, 70000), [(1,), (0,)]),
    ((2, 33000), [(0, 1), (1,)]),
    ((40000, 1, 3), [(2, 0), (1,)]),
    ((2, 3, 2), [(0, 1), (1, 2)] * 35),
    ((2, 3), [(0,), (1,)] * 150),
    ((3, 2, 2), [(0,), (1,), (2,), (0, 1), (1, 2), (2, 0)] * 12),
    ((300, 300), [(0,), (1,)]),
    ((17, 16, 15, 14), [(0,), (1, 2), (3,)]),
    ((2,) * 14, [(d,) for d in range(14)]),
    ((2,) * 15, [(d, d + 1, d + 2) for d in range(13)]),
]
