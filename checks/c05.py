"""C05: the statistics qis and qisi report: expectation, chiSq, pValue, pop."""
import itertools
import math

import numpy as np

from checks import c01, c02, common
from checks.c02 import seeds
from lib import harness, hl, ref, scen, tree
from lib.harness import Stage, TIER

H = None
UNDERFLOW = -85.19     # log(1e-37)


def judge(ctx, what, s, ms, seed, res, st, finding=None, fit=None):
    shape = common.dims_of(s, ms)
    pop = int(ms[0].sum())
    e = np.asarray(st["expectation"])
    res = np.asarray(res)
    if not ctx.check(e.shape == shape and e.dtype == np.float64 and res.shape == shape, lambda: "%s: expectation has shape %s" % (what, e.shape)):
        return
    ctx.check(st["pop"] == pop, lambda: "%s: pop %r" % (what, st["pop"]))
    x = fit if fit is not None else ref.ipf_run(np.ones(shape) if seed is None else seed, s, ms)[0]
    ctx.check(np.allclose(e, x, rtol=1e-6, atol=1e-9 * max(1, pop)), lambda: "%s: expectation %s, should be %s" % (what, harness.show(e.tolist()), harness.show(x.tolist())))
    if ((e == 0) & (res > 0)).any():
        ctx.n("sampled_unexpected")
        return
    c = ref.chi2_stat(res, e)
    ctx.n("chi_checked")
    ctx.check(abs(st["chiSq"] - c) <= 1e-9 * max(1.0, c), lambda: "%s: chiSq %r, should be %r" % (what, st["chiSq"], c))
    k = ref.dof(shape)
    if not math.isfinite(c) or c > 1e6:
        return
    p = ref.chi2_sf(c, k)
    # where the incomplete gamma function underflows far in the upper tail
    under = k > 0 and c > k and k / 2 * math.log(c / 2) - c / 2 - math.lgamma(k / 2) < UNDERFLOW
    if under and not finding:
        ctx.n("underflow_skipped")
        return
    ctx.n("p_checked")
    ctx.seen("dof", k)
    ctx.seen("p", round(p, 4))
    ctx.check(abs(st["pValue"] - p) < 1e-6 and 0 <= st["pValue"] <= 1, lambda: "%s: pValue %r for chiSq %r with %d degrees of freedom, should be %r" % (what, st["pValue"], c, k, p),
              finding if finding and st["pValue"] == 1.0 else None)


def both(ctx, s, j, name, seed, skips, finding=None):
    ms = scen.margs(j, s)
    L = common.lists(s)
    txt = "(%s, %s, %d)" % (L, harness.show([m.tolist() for m in ms]), skips)
    for what, sd, got in [("qis" + txt, None, hl.attempt(H.qis, L, ms, skips)),
                          ("qisi[%s seed]%s" % (name, txt), seed, None if seed is None else hl.attempt(H.qisi, seed, L, ms, skips))]:
        if got is None:
            continue
        ctx.n("evaluations")
        if got[0] != "ok":
            ctx.n("refused")
            continue
        if int(j.sum()) > 1:
            ctx.seen("nontrivial", (what, sd is None))
        judge(ctx, what, s, ms, sd, got[1][0], got[1][1], finding)
        ctx.sample({"call": what, "chiSq": got[1][1]["chiSq"], "pValue": got[1][1]["pValue"]})


def gen():
    thorough = TIER == "thorough"
    for n, s in enumerate(itertools.chain(scen.structures(2, 2), scen.structures(2, 3))):
        for i, j in enumerate([scen.mixed((2, 3), 1), scen.mixed((3, 2), 2, 9, 3), scen.mixed((2, 2), 3, 40), scen.mixed((1, 3), 4, 7), np.zeros((2, 2), dtype=np.int64)]):
            for q in range(6):
                yield (s, j) + seeds(j.shape, n % 7)[q] + ((0, 1, 9)[(n + i) % 3],)
    for n, s in enumerate(itertools.chain(scen.structures(3, 2), scen.structures(3, 3))):
        for i, j in enumerate([scen.mixed((2, 3, 4), 1, 2), scen.mixed((3, 2, 2), 2, 6, 3)]):
            for q in range(6) if thorough else [(n + i) % 6]:
                yield (s, j) + seeds(j.shape, n % 11)[q] + (0,)
    # every small table
    for s in [((0,), (1,)), ((1,), (0,))]:
        for j in scen.all_arrays((2, 2), (0, 1, 2, 3)):
            yield s, j, "generic", seeds((2, 2), int(j.sum()))[1][1], 0
        for j in scen.all_arrays((2, 3), (0, 1, 2)):
            yield s, j, "generic", seeds((2, 3), int(j.sum()))[1][1], 0
    for s in [((0,), (1,), (2,)), ((0, 1), (1, 2)), ((2, 0), (1,))]:
        for j in scen.all_arrays((2, 2, 2), (0, 1)):
            yield s, j, "one zero", seeds((2, 2, 2), int(j.sum()))[4][1], 0
    # poor fits, so that the p-value covers the whole range: sparse populations drawn at many offsets
    for k in range(0, 200 if not thorough else 2000):
        yield ((0,), (1,)), scen.mixed((3, 3), k % 13, 3, 3), "skewed", seeds((3, 3), k % 17)[2][1], k
        yield ((0,), (1,), (2,)), scen.mixed((2, 2, 2), k % 13, 4, 3), "skewed", seeds((2, 2, 2), k % 17)[2][1], k
        yield ((0,), (1,)), scen.mixed((2, 4), k % 13, 6, 4), "generic", seeds((2, 4), k % 17)[1][1], k
    for i, (shape, s) in enumerate(scen.LADDER):
        n = int(np.prod(shape))
        for hi, zeros in [(1, 0), (1, 2), (9, 3), (400, 0)]:
            if n * hi > (100000 if thorough else 20000):
                continue
            j = scen.mixed(shape, i, hi, zeros)
            small = n * hi <= 2500
            yield (s, j) + (seeds(shape, i)[1] if small else ("none", None)) + (0,)
            if thorough and small:
                yield (s, j) + seeds(shape, i)[2] + (100,)
    for i, (shape, s) in enumerate(scen.EXTREME):
        yield (s, scen.sparse(shape, 24, i)) + seeds(shape, i)[1] + (0,)


def run(case, ctx):
    both(ctx, *case)


# ------------------------------------------------------------ every population that some sequence of points leads to

def gen_tree():
    for s, ms in c01.gen_tree():
        if int(ms[0].sum()) <= (9 if TIER == "thorough" else 3 if max(map(max, s)) < 2 else 2):
            yield s, ms, None
    for n, (s, ms, name, seed) in enumerate(c02.gen_tree()):
        if TIER == "thorough" or n % 3 == 0:
            yield s, ms, seed


def run_tree(case, ctx):
    s, ms, seed = case
    shape = common.dims_of(s, ms)
    L = common.lists(s)
    fit = ref.ipf_run(np.ones(shape) if seed is None else seed, s, ms)[0]
    if seed is None:
        paths = (hi for cells, lo, hi, dead in tree.qis_paths(s, ms, len(shape), ctx) if not dead)
    else:
        paths = (pts for cells, pts in tree.qisi_paths(tree.QisiModel(seed, s, ms), ctx))
    for pts in paths:
        with hl.Stream(pts):
            kind, got = hl.attempt(H.qis, L, ms) if seed is None else hl.attempt(H.qisi, seed, L, ms)
        ctx.n("evaluations")
        ctx.n("environments")
        if kind != "ok":
            ctx.n("refused")
            continue
        judge(ctx, "qis%s(%s%s, %s) on points %s" % ("" if seed is None else "i", "" if seed is None else "%s, " % seed.tolist(), L, [m.tolist() for m in ms], pts.tolist()),
              s, ms, seed, got[0], got[1], fit=fit)


# ------------------------------------------------------------ chi-squared far from its expectation, in as many dimensions as there may be

def gen_far():
    """Every individual drawn at the same coordinate: populations as far from the expectation as the law allows."""
    for D in range(2, 11):
        for size in (2, 3, 4, 5, 7):
            if size ** D > 40000:
                continue
            for each in (1, 2, 5, 20):
                if size * each * size ** D <= 4000000:
                    for c in (1 << 20, (1 << 31) + 12345, (1 << 32) - 1):
                        yield size, D, each, c, False
                    yield size, D, each, 1 << 30, True


def run_far(case, ctx):
    size, D, each, c, skew = case
    s = tuple((d,) for d in range(D))
    ms = [np.full(size, each)] * len(s)
    pop = size * each
    pts = np.full((pop, D), c, dtype=np.uint32)
    if skew:
        pts[:, ::2] = (np.arange(pop, dtype=np.uint64)[:, None] * (2654435769 >> 3) % (1 << 32)).astype(np.uint32)
    with hl.Stream(pts):
        kind, got = hl.attempt(H.qis, common.lists(s), ms)
    ctx.n("evaluations")
    ctx.n("environments")
    what = "qis of %d x %d categories of %d, always drawing at %d" % (D, size, each, c)
    if ctx.check(kind == "ok", lambda: "%s: %r" % (what, got)):
        judge(ctx, what, s, ms, None, got[0], got[1], fit=np.full((size,) * D, pop / size ** D))


def gen_dof():
    for a in range(1, 25):
        for b in range(a, 25):
            if b > 1:
                for k in range(4):
                    yield a, b, k
    for n in list(range(25, 100, 3)) + [128, 200, 255, 256, 257, 300, 500, 513, 1000, 1025, 2000] + ([5000, 20000, 70000] if TIER == "thorough" else []):
        for a in (2, 3):
            for k in range(4):
                yield a, n, k


def run_dof(case, ctx):
    a, b, k = case
    g = math.gcd(a, b)
    # one or a few individuals expected in each state
    ms = [np.full(a, b // g * (g if k % 2 else 1)), np.full(b, a // g * (g if k % 2 else 1))]
    if k > 1:
        ms = ms[::-1]
    s = ((0,), (1,))
    pop = int(ms[0].sum())
    shape = common.dims_of(s, ms)
    kind, got = hl.attempt(H.qis, [[0], [1]], ms, (0, 5, 99, 1000)[k])
    ctx.n("evaluations")
    what = "qis of %d x %d categories, %d individuals, skip %d" % (shape + (pop, (0, 5, 99, 1000)[k]))
    if ctx.check(kind == "ok", lambda: "%s: %r" % (what, got)):
        judge(ctx, what, s, ms, None, got[0], got[1], fit=np.full(shape, pop / (a * b)))
    # and badly drawn
    if hl.hooked():
        pts = np.zeros((pop, 2), dtype=np.uint32)
        half = pop // (2 + k)
        pts[:half, 0] = (np.arange(half, dtype=np.uint64) * 2654435769 % (1 << 32)).astype(np.uint32)
        with hl.Stream(pts):
            kind, got = hl.attempt(H.qis, [[0], [1]], ms)
        ctx.n("evaluations")
        ctx.n("environments")
        if ctx.check(kind == "ok", lambda: "%s, badly drawn: %r" % (what, got)):
            judge(ctx, what + ", badly drawn", s, ms, None, got[0], got[1], fit=np.full(shape, pop / (a * b)))


def gen_finding():
    yield 0


def run_finding(case, ctx):
    # five dimensions of five categories, 3125 each (tests/testthat asserts a p-value above 0.99 here)
    ms = [np.full(5, 3125)] * 5
    s = tuple((d,) for d in range(5))
    kind, val = hl.attempt(H.qis, common.lists(s), ms)
    ctx.n("evaluations")
    if ctx.check(kind == "ok", lambda: "qis of 5 x 5 categories of 3125: %r" % (val,)):
        judge(ctx, "qis([[0],[1],[2],[3],[4]], [[3125]*5]*5)", s, ms, None, val[0], val[1], "pvalue-underflow-5x5x3125")


def main(replay=None):
    global H
    H = hl.load()
    stages = [Stage("problems", gen, run, limit=180), Stage("every-environment", gen_tree, run_tree, limit=180, hook=True),
              Stage("far-from-expected", gen_far, run_far, limit=180, hook=True), Stage("degrees-of-freedom", gen_dof, run_dof, limit=180), Stage("known-underflow", gen_finding, run_finding)]

    def summ(t):
        return dict(evaluations=t.counts["evaluations"], distinct_nontrivial=len(t.sets["nontrivial"]),
                    rule="every problem of the bounded space (index structures x populations x seeds x skips), and of small problems every population that some "
                         "sequence of points leads to; non-trivial: more than one individual",
                    environments=t.counts["environments"], chi_squared_checked=t.counts["chi_checked"], p_values_checked=t.counts["p_checked"], distinct_p_values=len(t.sets["p"]),
                    distinct_degrees_of_freedom=len(t.sets["dof"]), refused=t.counts["refused"], outside_domain_sampled_unexpected=t.counts["sampled_unexpected"],
                    outside_domain_underflow=t.counts["underflow_skipped"], samples=t.samples[:4])

    return harness.run_check("C05", stages, "exploration", summ, replay, assumptions=[
        "p-values are compared where the density factor exceeds 1e-37 (see the known finding) and chiSq is at most 1e6, to 1e-6"])
