"""The bounded space of IPF problems explored by C03 and C04."""
import itertools

import numpy as np

from checks.c02 import seeds
from lib import ref, scen
from lib.harness import TIER


def gen():
    """(structure, marginals (float), seed, label). Marginals labelled 'joint' come from one positive or non-negative
    array; 'totals' only agree in their (rounded) totals."""
    thorough = TIER == "thorough"
    scales = [1.0, 0.37, 1000.0]

    def emit(s, j, ss, sc):
        for name, seed in ss:
            yield s, [m * sc for m in scen.margs(j.astype(float), s)], seed, "joint"

    # every structure of two and three dimensions
    for n, s in enumerate(itertools.chain(scen.structures(2, 2), scen.structures(2, 3))):
        for i, j in enumerate([scen.mixed((2, 3), 1), scen.mixed((3, 2), 2, 9, 3), scen.mixed((2, 2), 3, 40), scen.mixed((1, 3), 4, 7), np.zeros((2, 2), dtype=np.int64)]):
            yield from emit(s, j, seeds(j.shape, n % 7), scales[(n + i) % 3])
            # the population itself as the seed: already fitted
            yield from emit(s, j, [("self", j.astype(float))], 1.0)
    for n, s in enumerate(itertools.chain(scen.structures(3, 2), scen.structures(3, 3))):
        for i, j in enumerate([scen.mixed((2, 3, 4), 1, 2), scen.mixed((3, 2, 2), 2, 6, 3)]):
            ss = seeds(j.shape, n % 11)
            yield from emit(s, j, ss if thorough else [ss[(n + i) % 6]], scales[(n + i) % 3])
    for n, s in enumerate(scen.structures(4, 2)):
        if thorough or n % 11 == 0:
            j = scen.mixed((2, 3, 2, 3), n % 7, 2, 4 if n % 2 else 0)
            yield from emit(s, j, [seeds(j.shape, n % 11)[n % 6]], scales[n % 3])
    # every small table as the population, every small 0/1/2 seed
    for j in scen.all_arrays((2, 2), (0, 1, 2)):
        for seed in scen.all_arrays((2, 2), (0, 1, 2)):
            yield ((0,), (1,)), [m * 1.0 for m in scen.margs(j, ((0,), (1,)))], seed.astype(float), "joint"
    for j in scen.all_arrays((2, 2, 2), (0, 1)):
        for k, s in enumerate([((0, 1), (1, 2)), ((0,), (1,), (2,)), ((0, 1), (2, 1), (0, 2)), ((1,), (2, 0))]):
            for t in (range(6) if thorough else [(int(j.sum()) + k) % 6]):
                yield s, [m * 1.0 for m in scen.margs(j, s)], seeds((2, 2, 2), int(j.sum()))[t][1], "joint"
    # totals agree after rounding only: no solution exists
    for a, b in [(1.3, 1.0), (10.0, 10.4), (2.0, 1.999999), (5.0, 5.0 + 3e-8), (5.0, 5.0 + 4e-9)]:
        for s in [((0,), (1,)), ((1,), (0,))]:
            for shape in [(2, 2), (2, 3)]:
                ms = [np.full(shape[i[0]], t / shape[i[0]]) for i, t in zip(s, (a, b))]
                for name, seed in seeds(shape, 3)[:4]:
                    yield s, ms, seed, "totals"
    # slow: tens to hundreds of iterations
    for i, e in enumerate(np.arange(1.0, 4.0, 0.1)):
        x = 10.0 ** -e
        for k, seed in enumerate([np.array([[1, x], [1, 1]]), np.array([[x, 1], [1, 1]]), np.array([[1, 1, x], [1, x, 1.0]])]):
            n = seed.shape[1]
            for a, b in [((50, 50), (50, 50)), ((30, 70), (70, 30)), ((7, 8), (8, 7))][i % 3:] + [((40, 60), (60, 40))]:
                b = b if n == 2 else (b[0] - 3, 3, b[1])
                yield ((0,), (1,)) if (i + k) % 2 else ((1,), (0,)), [np.array(v, dtype=float) for v in ((a, b) if (i + k) % 2 else (b, a))], seed, "slow"
    # scale
    for i, (shape, s) in enumerate(scen.LADDER):
        for hi, zeros, sc in [(3, 0, 1.0), (9, 3, 0.01), (900, 0, 1.0)]:
            j = scen.mixed(shape, i, hi, zeros)
            n = int(np.prod(shape))
            for q, (name, seed) in enumerate(seeds(shape, i)):
                if q in (0, 3) or (q == 5 and n > 60) or (zeros and q == 2 and n > 60):
                    continue
                if q == 4 and zeros:
                    seed = np.where(j > 0, seed + 0.1, 0.0)
                if j.sum() * sc <= 1e6:
                    yield s, [m * sc for m in scen.margs(j.astype(float), s)], seed, "joint"
    for i, (shape, s) in enumerate(scen.EXTREME):
        j = scen.sparse(shape, 24, i)
        for sc in (1.0, 0.37):
            yield s, [m * sc for m in scen.margs(j.astype(float), s)], seeds(shape, i)[1][1], "joint"
        yield s, [m * 1.0 for m in scen.margs(j.astype(float), s)], np.where(j > 0, seeds(shape, i)[2][1], 0.0), "joint"


def disjoint(s):
    return sum(len(i) for i in s) == len(set().union(*s))
