"""C07: the law by which qisi draws its population: one Sobol point per individual, inverse-CDF on the IPF solution of what is left."""
import itertools

import numpy as np

from checks import c02, c06, common
from lib import harness, hl, ref, scen, tree
from lib.harness import Stage, TIER

H = None


def agrees(got, n, pop, want):
    """got is one of the possible populations, or holds one of them if the model only followed the first n draws."""
    got = np.asarray(got)
    return any(got.shape == w.shape and (np.array_equal(got, w) if n == pop else (got >= w).all()) for w in want)


def run_tree(case, ctx):
    s, ms, name, seed = case
    L = common.lists(s)
    outcomes = set()
    txt = "qisi(%s, %s, %s)" % (seed.tolist(), L, [m.tolist() for m in ms])
    model = tree.QisiModel(seed, s, ms)
    for cells, pts in tree.qisi_paths(model, ctx):
        n, want = model.run(pts)
        ctx.n("ambiguous", len(want) > 1)
        with hl.Stream(pts):
            kind, got = hl.attempt(H.qisi, seed, L, ms)
        ctx.n("executions")
        if ctx.check(kind == "ok" and agrees(got[0], n, len(pts), want),
                     lambda: "%s on points %s: %s, the draws are %s" % (txt, pts.tolist(), got[0].tolist() if kind == "ok" else repr(got), cells)):
            ctx.n("validated" if n == len(pts) else "prefixes")
        outcomes |= {w.tobytes() for w in want}
    ctx.n("outcomes", len(outcomes))
    if outcomes:
        ctx.sample({"call": txt, "distinct populations over all environments": len(outcomes)})


def gen_real():
    """Seeds in general position, so that ties are rare."""
    thorough = TIER == "thorough"
    for n, s in enumerate(itertools.chain(scen.structures(2, 2), scen.structures(2, 3))):
        for i, j in enumerate([scen.mixed((2, 3), 1), scen.mixed((3, 2), 2, 9, 3), scen.mixed((2, 2), 3, 40), scen.mixed((1, 3), 4, 7)]):
            for q in (1, 2, 4):
                yield (s, j) + c02.seeds(j.shape, (n + i) % 23)[q] + (c02.SKIPS[(n + i + q) % 5],)
    for n, s in enumerate(itertools.chain(scen.structures(3, 2), scen.structures(3, 3))):
        for i, j in enumerate([scen.mixed((2, 3, 4), 1, 2), scen.mixed((3, 2, 2), 2, 6, 3)]):
            for q in (1, 2, 4) if thorough else [(1, 2, 4)[(n + i) % 3]]:
                yield (s, j) + c02.seeds(j.shape, (n + i) % 23)[q] + (c02.SKIPS[(n + q) % 5],)
    for i, (shape, s) in enumerate(scen.LADDER):
        n = int(np.prod(shape))
        for hi in (1, 4, 30):
            if n * hi <= (6000 if thorough else 1500):
                j = scen.mixed(shape, i, hi)
                yield (s, j) + c02.seeds(shape, i)[1] + ((0, 3, 70)[hi % 3],)
                yield (s, j) + c02.seeds(shape, i + 1)[2] + (0,)


    for i, (shape, s) in enumerate(scen.EXTREME):
        if len(s) < 60 and shape[0] != 40000:
            yield (s, scen.sparse(shape, 12, i)) + c02.seeds(shape, i)[1] + ((0, 5)[i % 2],)


def run_real(case, ctx):
    s, j, name, seed, k = case
    ms = scen.margs(j, s)
    L = common.lists(s)
    pop = int(j.sum())
    model = tree.QisiModel(seed, s, ms)
    pts = ref.SobolRef.points(1 + ref.skipped(k), pop, j.ndim)
    n, want = model.run(pts)
    ctx.n("transitions", n)
    ctx.n("ambiguous", len(want) > 1)
    txt = "qisi(%s, %s, %s, %d)" % (harness.show(seed.tolist()), L, harness.show([m.tolist() for m in ms]), k)
    kind, got = hl.attempt(H.qisi, seed, L, ms, k) if k else hl.attempt(H.qisi, seed, L, ms)
    ctx.n("executions")
    if not ctx.check(kind == "ok", lambda: "%s: %r" % (txt, got)):
        return
    if ctx.check(agrees(got[0], n, pop, want), lambda: "%s: %s, drawing %d of %d from the sequence gives %s" % (
            txt, harness.show(got[0].tolist()), n, pop, harness.show([w.tolist() for w in want]))):
        ctx.n("lockstep" if n == pop else "prefixes")
    ctx.seen("populations", (s, j.tolist(), name, k, np.asarray(got[0]).tobytes()))


    for i, (s, shape) in enumerate([(s, (2, 3)) for n in (2, 3) for s in scen.clashing(2, n)] + [(s, (2, 3, 2)) for s in scen.clashing(3, 2)]):
        if i % 4 == 0:
            yield (s, scen.several(shape, len(s), i)) + c02.seeds(shape, i % 11)[(1, 2, 4)[i % 3]] + (0,)


# ------------------------------------------------------------ coordinates exactly on the border of two categories

def gen_border():
    """One individual in each of n categories of one dimension, two categories in the others: powers of two all over, so that
    the expectation and its sums are exact."""
    for D in (2, 3, 4):
        for d in range(D):
            for n in (2, 4, 8, 16, 64, 128) if D == 2 else (2, 4, 8, 64) if D == 3 else (2, 8):
                yield D, d, n


def run_border(case, ctx):
    D, d, n = case
    shape = [2] * D
    shape[d] = n
    ms = [np.full(k, n // k, dtype=np.int64) for k in shape]
    L = [[i] for i in range(D)]
    for k in range(1, n):
        # the first point is on the lower border of category k, and in category 0 of the other dimensions; the second asks for
        # the category below, and category 1 of the others
        u = [1 << 30] * D
        u[d] = (k << 32) // n
        v = [3 << 30] * D
        v[d] = int((k - 0.5) / (n - 1) * 2.0 ** 32)
        pts = np.vstack([np.array([u, v], dtype=np.uint32), ref.SobolRef.points(1000, n - 2, D)])
        with hl.Stream(pts):
            kind, got = hl.attempt(H.qisi, np.ones(shape), L, ms)
        ctx.n("executions")
        ctx.n("transitions", n)
        at = [0] * D
        at[d] = k
        if ctx.check(kind == "ok" and got[0].shape == tuple(shape) and got[0][tuple(at)] == 1 and got[0].sum() == n,
                     lambda: "qisi(ones%s, %s, %s): the first point %s is the lowest in state %s, but the population is %s" % (
                         shape, L, harness.show([m.tolist() for m in ms]), u, at, harness.show(got[0].tolist() if kind == "ok" else repr(got)))):
            ctx.n("prefixes")


def gen_skip():
    for s, shape in [(((0,), (1,)), (3, 4)), (((0, 1), (1, 2)), (2, 3, 4)), (((2,), (1, 0)), (3, 2, 4))]:
        for i, k in enumerate(c06.SKIPS + ([(1 << 28) + 1, (1 << 31) - 1, 1 << 31] if TIER == "thorough" else [])):
            yield (s, scen.mixed(shape, 3, 3)) + c02.seeds(shape, i)[1] + (k,)


def main(replay=None):
    global H
    H = c02.H = hl.load()
    stages = [
        Stage("choice-trees", c02.gen_tree, run_tree, limit=180, hook=True),
        Stage("borders", gen_border, run_border, hook=True),
        Stage("skips", gen_skip, run_real, limit=600),
        Stage("real-sequence-lockstep", gen_real, run_real, limit=300),
    ]

    def summ(t):
        return dict(states=len(t.sets["states"]), transitions=t.counts["transitions"],
                    traces_validated_against_impl=t.counts["validated"] + t.counts["lockstep"], prefixes_validated=t.counts["prefixes"],
                    executions=t.counts["executions"], traces_with_more_than_one_admissible_outcome=t.counts["ambiguous"],
                    distinct_populations_over_all_environments=t.counts["outcomes"],
                    rule="states: distinct (seed, structure, remaining marginals, remaining expectation) the model reaches; transitions: draws; a trace is "
                         "validated when the real qisi ends in the model's population; where the expectation of a state reaches zero within rounding the model admits both continuations",
                    samples=t.samples[:6])

    return harness.run_check("C07", stages, "model_checking", summ, replay, assumptions=[
        "each category holding more than 1e-7 of the weight is represented by the middle of its interval",
        "whole choice trees for populations up to 3 (thorough: 5); larger ones in lockstep with the model on the real sequence"])
