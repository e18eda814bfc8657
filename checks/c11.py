"""C11: integerise of an n-dimensional population: same total, same zeros, conv exactly when every marginal is kept."""
import itertools
import math

import numpy as np

from lib import harness, hl, ref, scen
from lib.harness import Stage, TIER

H = None


def marginals(a):
    return [a.sum(axis=tuple(k for k in range(a.ndim) if k != d)) for d in range(a.ndim)]


def run(case, ctx):
    a = case
    pop = int(round(float(a.sum())))
    kind, got = hl.attempt(H.integerise, a)
    ctx.n("evaluations")
    what = "integerise(%s)" % harness.show(a.tolist())
    if not ctx.check(kind == "ok", lambda: "%s: %r" % (what, got)):
        return
    res, st = np.asarray(got[0]), got[1]
    if not ctx.check(res.shape == a.shape and np.issubdtype(res.dtype, np.integer), lambda: "%s: shape %s, type %s" % (what, res.shape, res.dtype)):
        return
    show = lambda: "%s -> %s: " % (what, harness.show(res.tolist()))
    ctx.check(int(res.min()) >= 0, lambda: show() + "negative count")
    ctx.check(int(res.sum()) == pop, lambda: show() + "%d individuals, should be %d" % (int(res.sum()), pop))
    ctx.check(not res[a == 0].any(), lambda: show() + "individuals in a state the fractional population excludes")
    kept = all(np.array_equal(m, np.round(f)) for m, f in zip(marginals(res), marginals(a)))
    ctx.check(isinstance(st["conv"], bool) and st["conv"] == kept, lambda: show() + "conv is %r, the marginals are %s" % (st["conv"], "kept" if kept else "not kept"))
    # sampling from a positive expectation can always keep one-dimensional marginals
    if (a > 0).all():
        ctx.check(kept, lambda: show() + "marginals not kept")
        ctx.n("guaranteed")
    want = math.sqrt(float(((res - a) ** 2).mean()))
    ctx.check(abs(st["rmse"] - want) <= 1e-9 * max(1.0, pop), lambda: show() + "rmse %r, should be %r" % (st["rmse"], want))
    if (a != np.round(a)).any():
        ctx.n("nontrivial")
    ctx.n("kept" if kept else "approximate")
    ctx.sample({"population": a.tolist(), "result": res.tolist()} if a.size < 20 else {})


def fractions(shape, den, hi):
    """All arrays of multiples of 1/den up to hi/den whose one-dimensional marginals are whole."""
    n = int(np.prod(shape))
    for v in itertools.product(range(hi + 1), repeat=n):
        a = np.array(v).reshape(shape)
        if all((m % den == 0).all() for m in marginals(a)):
            yield a / float(den)


def gen_small():
    thorough = TIER == "thorough"
    plan = [((2, 2), 1, 3), ((2, 2), 2, 6), ((2, 2), 4, 9), ((2, 2), 5, 10), ((1, 3), 1, 4), ((2, 3), 1, 2), ((2, 3), 2, 4), ((3, 2), 3, 3), ((3, 3), 2, 2), ((2, 2, 2), 1, 1), ((2, 2, 2), 2, 3), ((1, 2, 2), 4, 7), ((2, 4), 2, 3)]
    if thorough:
        plan += [((2, 2), 12, 30), ((3, 3), 3, 3), ((2, 2, 2), 4, 5), ((2, 3), 6, 7), ((2, 2, 3), 2, 2), ((2, 5), 2, 3), ((2, 2, 2, 1), 3, 4)]
    for shape, den, hi in plan:
        yield from fractions(shape, den, hi)


def gen_large():
    """Fractional populations with the marginals of an integer one: its ipf from seeds of different character, and mixtures."""
    from checks.c02 import seeds
    thorough = TIER == "thorough"
    for i, shape in enumerate([(2, 3), (3, 4), (5, 5), (2, 2, 2), (2, 3, 4), (3, 3, 3), (2, 2, 2, 2), (2, 3, 2, 3), (1, 4, 1, 3), (10, 10), (40, 3), (3, 40), (2,) * 6, (4, 5, 6)] + ([(30, 30), (2,) * 9, (8, 9, 10), (300, 2)] if thorough else [])):
        for q in range(12 if thorough else 5):
            for hi, zeros in [(2, 0), (5, 0), (9, 3), (4, 2)]:
                j = scen.mixed(shape, i + 7 * q, hi, zeros)
                s = [(d,) for d in range(len(shape))]
                if (q == 0 or j.sum() < 300) and j.sum() < (5000 if thorough else 1500):
                    for name, seed in [seeds(shape, i + q)[1], seeds(shape, i + q)[2], ("keeps zeros", np.where(j > 0, seeds(shape, i)[1][1], 0.0))]:
                        x, conv, _, _ = ref.ipf_run(seed, s, marginals(j))
                        if conv:
                            yield x
                    # half of one, half of another with the same marginals
                    k = j.copy()
                    if k[(0,) * k.ndim] > 0 and k[(1,) * 2 + (0,) * (k.ndim - 2)] > 0 if min(k.shape[:2]) > 1 else False:
                        z = (0,) * (k.ndim - 2)
                        k[(0, 0) + z] -= 1
                        k[(1, 1) + z] -= 1
                        k[(0, 1) + z] += 1
                        k[(1, 0) + z] += 1
                        yield (j + k) / 2.0
                        yield j * 0.3 + k * 0.7
                    yield j.astype(float)
    for i, (shape, _) in enumerate(scen.EXTREME):
        s = [(d,) for d in range(len(shape))]
        j = scen.sparse(shape, 24, i)
        for seed in (seeds(shape, i)[1][1], np.where(j > 0, seeds(shape, i)[2][1], 0.0))[:2 if j.size < 2000 else 1]:
            x, conv, _, _ = ref.ipf_run(seed, s, marginals(j))
            if conv:
                yield x
        yield j.astype(float)
    for a in ([[1e6 + 0.5, 0.5], [0.5, 0.5]], [[30000.5, 0.5, 1], [0.25, 0.75, 0]], [[2e4, 1], [1, 0]]):
        a = np.array(a)
        if all((m == np.round(m)).all() for m in marginals(a)) and a.sum() < 1e5:
            yield a


def gen_tolerance():
    """Marginals that are whole only within the documented tolerance (1e-4)."""
    for off in (5e-5, -5e-5, 1e-7, -1e-7, 1e-12):
        for a in fractions((2, 2), 2, 5):
            if (a > 0).all():
                b = a.copy()
                b[0, 0] += off
                yield b


def gen_bad():
    nan, inf = math.nan, math.inf
    for a in fractions((2, 2), 2, 3):
        for off in (2e-4, -2e-4, 0.3, 0.5):
            for c in np.ndindex(2, 2):
                if a[c] + off >= 0:
                    b = a.copy()
                    b[c] += off
                    yield b
    # whole total, marginals that are not
    for d in (0.5, 0.25, 2e-4):
        yield np.array([[1 + d, 1.0], [1.0, 1 - d]])
        yield np.array([[1 + d, 1 - d], [1.0, 1.0]])
        yield np.array([[1 + d, 1.0], [1 - d, 1.0]])
        b = np.ones((2, 2, 2))
        b[0, 0, 0] += d
        b[0, 0, 1] -= d
        yield b
    for v in (nan, inf, -inf, -1.0, -1e-3, -1e-12, 1e300, 1e19):
        for shape in ((2, 2), (2, 3), (2, 2, 2)):
            for n in (0, 3):
                b = np.ones(shape)
                b.flat[n] = v
                yield b
    b = np.array([[2.0, -1.0], [-1.0, 2.0]])
    yield b
    yield np.zeros((0, 2))
    yield np.zeros((2, 0))
    yield np.zeros((0,))
    yield np.zeros(())


def run_bad(case, ctx):
    kind, got = hl.attempt(H.integerise, case)
    ctx.n("evaluations")
    ctx.n("malformed")
    ctx.check(kind == "raised", lambda: "integerise(%s) was accepted: %r" % (case.tolist(), got))


def main(replay=None):
    global H
    H = hl.load()
    stages = [Stage("small-fractions", gen_small, run), Stage("large", gen_large, run, limit=120), Stage("within-tolerance", gen_tolerance, run), Stage("malformed", gen_bad, run_bad)]

    def summ(t):
        return dict(evaluations=t.counts["evaluations"], distinct_nontrivial=t.counts["nontrivial"], malformed=t.counts["malformed"], exact=t.counts["kept"],
                    approximate=t.counts["approximate"], with_guaranteed_convergence=t.counts["guaranteed"],
                    rule="every array of small multiples of 1/2, 1/3, 1/4, 1/5 with whole marginals, then larger ones; all distinct; non-trivial: some entry is not whole",
                    samples=[s for s in t.samples if s["case"]][:4])

    return harness.run_check("C11", stages, "exploration", summ, replay, assumptions=[
        "exhaustive up to the listed shapes and denominators; larger populations are the ipf solutions of listed problems"])
