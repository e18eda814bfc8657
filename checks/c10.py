"""C10: integerise of a vector: non-negative integers with the requested total, as close to the fractional counts as can be."""
import itertools
import math

import numpy as np

from lib import harness, hl, scen
from lib.harness import Stage, TIER

H = None


def judge(ctx, what, target, pop, res, rmse):
    """target: the fractional counts, adding up to pop"""
    res = np.asarray(res)
    n = len(target)
    ok = ctx.check(res.shape == (n,) and np.issubdtype(res.dtype, np.integer), lambda: "%s: shape %s type %s" % (what, res.shape, res.dtype))
    if not ok:
        return
    slack = 1e-9 * max(1.0, pop)
    e = res - target
    ctx.check(int(res.sum()) == pop, lambda: "%s: %s adds up to %d, not %d" % (what, harness.show(res.tolist()), int(res.sum()), pop))
    ctx.check(int(res.min()) >= 0, lambda: "%s: negative frequency in %s" % (what, harness.show(res.tolist())))
    ctx.check(float(np.abs(e).max()) < 1 + slack, lambda: "%s: %s is a whole individual or more away from %s" % (what, harness.show(res.tolist()), harness.show(target.tolist())))
    # moving an individual from one category to another cannot bring it closer: e_j - e_i <= 1 for every i, j with res_j > 0
    ctx.check(float(e[res > 0].max(initial=-1) - e.min()) <= 1 + slack, lambda: "%s: %s is not the closest to %s" % (what, harness.show(res.tolist()), harness.show(target.tolist())))
    ctx.check(not res[target == 0].any(), lambda: "%s: individuals in an empty category: %s" % (what, harness.show(res.tolist())))
    want = math.sqrt(float((e * e).mean()))
    ctx.check(abs(rmse - want) <= 1e-6 + slack, lambda: "%s: rmse %r, should be %r" % (what, rmse, want))


def gen_frac():
    thorough = TIER == "thorough"
    # every vector of small weights, every small population
    for n, vals in [(1, range(8)), (2, range(8)), (3, range(10)), (4, range(6)), (5, range(5 if thorough else 4)), (6, range(3))] + ([(7, range(3)), (8, range(2)), (10, range(2))] if thorough else []):
        for w in itertools.product(vals, repeat=n):
            if sum(w):
                yield [float(v) for v in w], range(0, 20 if n < 6 or thorough else 8)
    # weights that are not exact in binary
    for n in (2, 3, 4):
        for w in itertools.product((0.1, 0.2, 0.3, 0.7, 1 / 3, 1e-9, 1e9), repeat=n):
            yield list(w), [1, 2, 3, 7, 10, 99, 100, 1000]
    for i in range(60 if not thorough else 600):
        n = (5, 17, 100, 999)[i % 4]
        w = scen.mixed((n,), i, 1000, (0, 3)[i % 2]) / (1.0, 7.0, 1e6)[i % 3]
        yield w.tolist(), [0, 1, 2, n - 1, n, n + 1, 10 * n, 12345, 10 ** 6, 10 ** 7, (1 << 31) - 1 if n < 100 else 10 ** 8]


def run_frac(case, ctx):
    w, pops = case
    a = np.array(w)
    for pop in pops:
        kind, got = hl.attempt(H.integerise, a, pop)
        ctx.n("evaluations")
        what = "integerise(%s, %d)" % (harness.show(w), pop)
        if ctx.check(kind == "ok", lambda: "%s: %r" % (what, got)):
            judge(ctx, what, a / a.sum() * pop, pop, got[0], got[1]["rmse"])
            if pop and (np.asarray(got[0]) != a / a.sum() * pop).any():
                ctx.n("nontrivial")
    ctx.sample({"frac": w[:8], "pop": pops[-1]})


def gen_whole():
    thorough = TIER == "thorough"
    # every vector of fifths, quarters and thirds with a whole total
    for den, hi, ns in [(4, 7, (1, 2, 3, 4)), (5, 6, (1, 2, 3, 4)), (3, 5, (1, 2, 3, 4, 5))] + ([(10, 12, (2, 3, 4)), (7, 9, (2, 3, 4)), (6, 4, (5, 6))] if thorough else []):
        for n in ns:
            for w in itertools.product(range(hi + 1), repeat=n):
                if sum(w) % den == 0:
                    yield [v / den for v in w], sum(w) // den
    # totals within tolerance of a whole number
    for off in (9e-5, -9e-5, 1e-6, -1e-6, 1e-12, -1e-12):
        for w in itertools.product((0.0, 0.25, 1.5, 2.0, 3.25), repeat=3):
            t = sum(w)
            if t == int(t) and t > 0 and w[0] > 0:
                yield [w[0] + off] + list(w[1:]), int(t)
    for i in range(60 if not thorough else 600):
        n = (5, 17, 100, 999)[i % 4]
        j = scen.mixed((n,), i, 1000, (0, 3)[i % 2])
        pop = (1, n, 12345, 10 ** 6)[i % 4 if i % 3 else 3]
        yield (j / j.sum() * pop).tolist(), pop


def run_whole(case, ctx):
    w, pop = case
    a = np.array(w)
    kind, got = hl.attempt(H.integerise, a)
    ctx.n("evaluations")
    what = "integerise(%s)" % harness.show(w)
    if ctx.check(kind == "ok", lambda: "%s: %r" % (what, got)):
        ctx.check(got[1]["conv"] is True, lambda: "%s: conv %r" % (what, got[1]["conv"]))
        tol = abs(a.sum() - pop)
        if tol < 1e-9:
            judge(ctx, what, a, pop, got[0], got[1]["rmse"])
        else:
            res = np.asarray(got[0])
            ctx.check(int(res.sum()) == pop and int(res.min()) >= 0 and (np.abs(res - a) < 1 + 2 * tol).all(), lambda: "%s: %s" % (what, res.tolist()))
        if (np.asarray(got[0]) != a).any():
            ctx.n("nontrivial")


def gen_bad():
    nan, inf = math.nan, math.inf
    for w, pop in [([], 3), ([], 0), ([0.0], 3), ([0.0, 0.0], 1), ([1.0, -0.5], 3), ([-1.0], 2), ([-1.0, -1.0], 2), ([nan], 1), ([nan, 1.0], 1), ([1.0, nan], 0), ([inf], 1), ([1.0, inf], 4),
                   ([1.0, -inf], 4), ([[0.5, 0.5]], 2), ([[1.0]], 2), ([1.0, 2.0], -1), ([1.0, 2.0], -(1 << 31)), ([1.0], 1 << 31), ([1.0], 1 << 40), ([1.0], "1"), ("x", 1), (None, 1), ([1.0, 2.0], None)]:
        yield (w, pop)
    for w in [[0.5], [0.5, 0.7], [1.001, 1.0], [2.0, 0.9998], [], [-1.0, 2.0], [-1.0], [nan], [nan, 1.0], [inf], [1.0, -inf], 1.0, "abc", None, [float(1 << 31), 0.0], [1e300], [1e18, 1e18]]:
        yield (w,)


def run_bad(case, ctx):
    kind, got = hl.attempt(H.integerise, *(np.array(c) if isinstance(c, list) else c for c in case))
    ctx.n("evaluations")
    ctx.n("malformed")
    ctx.check(kind == "raised", lambda: "integerise%r was accepted: %r" % (case, got))


def main(replay=None):
    global H
    H = hl.load()
    stages = [Stage("fractions-and-population", gen_frac, run_frac, limit=30), Stage("whole-totals", gen_whole, run_whole, limit=30), Stage("malformed", gen_bad, run_bad, limit=30)]

    def summ(t):
        return dict(evaluations=t.counts["evaluations"], distinct_nontrivial=t.counts["nontrivial"], malformed=t.counts["malformed"],
                    rule="every vector over small alphabets of weights and every small population, then longer and larger ones; all are distinct; non-trivial: something had to be rounded",
                    samples=t.samples[:4])

    return harness.run_check("C10", stages, "exploration", summ, replay, assumptions=[
        "exhaustive for up to 6 categories with weights 0..2 (more weights for fewer categories) and populations up to 13"])
