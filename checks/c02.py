"""C02: a population synthesised by qisi is integral, complete, respects the seed's zeros, and conv tells the truth."""
import itertools

import numpy as np

from checks import common
from lib import harness, hl, ref, scen, tree
from lib.harness import Stage, TIER

H = None


def seeds(shape, i=0):
    """Seeds of different character; positive ones first."""
    n = int(np.prod(shape))
    ones = np.ones(shape)
    generic = (1.0 + np.sqrt(np.arange(2 + i, 2 + i + n) * 1.7) % 1.0 * 3).reshape(shape)
    skew = np.where(scen.mixed(shape, i, 2) == 0, 0.05, 1.0) * generic
    z = generic.copy()
    z.ravel()[(i * 3) % n] = 0.0
    zz = scen.mixed(shape, i + 5, 3, 3).astype(float)
    return [("ones", ones), ("generic", generic), ("skewed", skew), ("scaled", generic * 1e-4), ("one zero", z), ("zeros", zz)]


def judge(ctx, what, s, ms, seed, got, must):
    kind, val = got
    if kind == "raised":
        ctx.n("refused")
        # there is no population at all on the cells the seed and the marginals leave open
        open_ = seed > 0
        for i, m in zip(s, ms):
            open_ = open_ & (ref.expand(m, list(i), seed.ndim) > 0)
        ctx.check(not open_.any() and int(ms[0].sum()) > 0 and isinstance(val, RuntimeError), lambda: "%s: raised %r" % (what, val))
        return None
    res, st = val
    common.judge_population(ctx, what, s, ms, res, st, must)
    res = np.asarray(res)
    if res.shape == seed.shape:
        ctx.check(not res[seed == 0].any(), lambda: "%s: individuals in states the seed excludes: %s" % (what, res.tolist()))
    return res, st


def must_converge(s, seed):
    return bool((seed > 0).all()) and ref.running_intersection(s)


def gen_tree():
    thorough = TIER == "thorough"
    for D, s in common.tree_structures("quick"):
        if D == 2:
            plan = [((2, 2), (1, 2, 3)), ((2, 3), (2, 3))] if len(s) == 2 else [((2, 2), (3,))]
            if thorough:
                plan += [((2, 2), (4, 5)), ((2, 3), (4,)), ((3, 3), (3,))]
        else:
            plan = [((2, 2, 2), (2,)), ((1, 2, 3), (2,))]
            if thorough:
                plan += [((2, 2, 2), (3,)), ((2, 3, 2), (2,))]
        for shape, totals in plan:
            for i, ms in enumerate(common.distinct_marginals(common.joints_up_to(shape, totals), s)):
                ss = seeds(shape, i)
                for name, seed in (ss[:3] + ss[4:] if D == 2 and len(s) == 2 and (thorough or shape == (2, 2)) else [ss[1], ss[(4, 5, 0, 2)[i % 4]]]):
                    yield s, ms, name, seed


def run_tree(case, ctx):
    s, ms, name, seed = case
    L = common.lists(s)
    must = must_converge(s, seed)
    model = tree.QisiModel(seed, s, ms)
    for cells, pts in tree.qisi_paths(model, ctx):
        with hl.Stream(pts):
            got = hl.attempt(H.qisi, seed, L, ms)
        ctx.n("executions")
        what = "qisi(%s, %s, %s) on points %s" % (seed.tolist(), L, [m.tolist() for m in ms], pts.tolist())
        r = judge(ctx, what, s, ms, seed, got, must)
        n, want = model.run(pts)
        if must:
            ctx.check(n < len(pts) or all(ref.satisfied(w, s, ms) for w in want), lambda: "model: a path of %s violates the marginals" % what)
        if len(want) > 1:
            ctx.n("ambiguous")
        if r is not None and n == len(pts) and any(np.array_equal(r[0], w) for w in want):
            ctx.n("validated")
        ctx.seen("outcomes", (s, name, [m.tolist() for m in ms], r and (r[0].tolist(), r[1]["conv"])))
        ctx.sample({"seed": seed.tolist(), "indices": s, "marginals": [m.tolist() for m in ms], "points": pts.tolist(), "states": cells})


def gen_exhaust():
    for s, shape in [(((0,), (1,)), (2, 2)), (((0, 1), (1, 2)), (2, 2, 2))]:
        for i in range(3):
            ms = scen.margs(scen.mixed(shape, i, 2), s)
            for k in range(int(ms[0].sum()) + 1):
                yield s, ms, seeds(shape, i)[1][1], k


def run_exhaust(case, ctx):
    s, ms, seed, k = case
    L = common.lists(s)
    pop = int(ms[0].sum())
    with hl.Stream(ref.SobolRef.points(1, k, seed.ndim)):
        got = hl.attempt(H.qisi, seed, L, ms)
    ctx.n("executions")
    ctx.n("faults")
    ctx.n("transitions", k)
    what = "qisi(%s, %s, %s) with %d points available" % (seed.tolist(), L, [m.tolist() for m in ms], k)
    if k < pop:
        ctx.check(got[0] == "raised", lambda: "%s: returned %r for a population it could not sample" % (what, got[1]))
    else:
        judge(ctx, what, s, ms, seed, got, True)
    judge(ctx, what + ", then again with the real sequence", s, ms, seed, hl.attempt(H.qisi, seed, L, ms), True)


SKIPS = [0, 1, 2, 5, 1000]


def gen_struct():
    thorough = TIER == "thorough"
    for s in itertools.chain(scen.structures(2, 2), scen.structures(2, 3)):
        for j in [scen.mixed((2, 3), 1), scen.mixed((3, 2), 2, 9, 3), scen.mixed((2, 2), 3, 40), scen.mixed((1, 3), 4, 7), np.zeros((2, 2), dtype=np.int64)]:
            for i, (name, seed) in enumerate(seeds(j.shape, 2)):
                yield s, j, name, seed, SKIPS[i % 5]
    for n, s in enumerate(itertools.chain(scen.structures(3, 2), scen.structures(3, 3))):
        for j in [scen.mixed((2, 3, 4), 1, 2), scen.mixed((3, 2, 2), 2, 6, 3)]:
            ss = seeds(j.shape, n % 11)
            for i, (name, seed) in enumerate(ss if thorough else [ss[n % 6]]):
                yield s, j, name, seed, SKIPS[i % 5]
    # marginals that agree in each dimension they share, but not in several of them together
    for i, (s, shape) in enumerate([(s, (2, 3)) for n in (2, 3) for s in scen.clashing(2, n)] + [(s, (2, 3, 2)) for n in (2, 3) for s in scen.clashing(3, n)]):
        if thorough or i % 16 == 0 or len(shape) == 2 or len(s) == 2 and i % 4 == 0:
            yield (s, scen.several(shape, len(s), i)) + seeds(shape, i % 11)[i % 5] + (SKIPS[i % 5],)
    for i, s in enumerate(scen.structures(4, 2)):
        if thorough or i % 7 == 0:
            j = scen.mixed((2, 3, 2, 3), i % 7, 2, 4 if i % 2 else 0)
            yield (s, j) + seeds(j.shape, i % 11)[i % 5] + (SKIPS[i % 5],)


def run_struct(case, ctx):
    s, j, name, seed, k = case
    ms = scen.margs(j, s)
    L = common.lists(s)
    got = hl.attempt(H.qisi, seed, L, ms, k) if k else hl.attempt(H.qisi, seed, L, ms)
    must = must_converge(s, seed) and not isinstance(j, scen.Several)
    ctx.n("executions")
    ctx.n("transitions", int(j.sum()))
    ctx.n("guaranteed" if must else "unguaranteed")
    r = judge(ctx, "qisi(%s, %s, %s, %d)" % (harness.show(seed.tolist()), L, harness.show([m.tolist() for m in ms]), k), s, ms, seed, got, must)
    ctx.seen("outcomes", (s, j.tolist(), name, k, r and r[1]["conv"]))


def gen_ladder():
    thorough = TIER == "thorough"
    for i, (shape, s) in enumerate(scen.LADDER):
        n = int(np.prod(shape))
        for hi, zeros in [(1, 0), (1, 2), (4, 3), (9, 0), (200, 0)]:
            if n * hi > (40000 if thorough else 6000):
                continue
            j = scen.mixed(shape, i, hi, zeros)
            for q, (name, seed) in enumerate(seeds(shape, i)):
                if q == 3 or (not thorough and q == 0):
                    continue
                if q >= 4:
                    if not thorough and (n * hi > 2000 or n > 500):
                        continue
                    if n > 40:
                        # zeros that leave a solution: those of the population the marginals come from
                        name, seed = "zeros of a solution", np.where(j > 0, seeds(shape, i)[1][1], 0.0)
                elif not thorough and len(shape) > 9 and hi > 1:
                    continue
                yield s, j, name, seed, (0, 3, 70, 1 << 16)[q % 4]
    for i, (shape, s) in enumerate(scen.EXTREME):
        j = scen.sparse(shape, 24, i)
        for name, seed in seeds(shape, i)[1:3]:
            yield s, j, name, seed, (0, 3)[i % 2]
        if j.size < 2000:
            yield s, j, "zeros of a solution", np.where(j > 0, seeds(shape, i)[1][1], 0.0), 0
    for shape, s, t in [((2, 2), [(0,), (1,)], 20000), ((3, 2, 2), [(0, 1), (1, 2)], 3000)]:
        yield s, scen.mixed(shape, 3, t), "generic", seeds(shape, 1)[1][1], 0


# ------------------------------------------------------------ every small table and every 0/1 seed

def gen_zero():
    for shape, s in [((2, 2), ((0,), (1,))), ((2, 3), ((0,), (1,))), ((2, 2, 2), ((0,), (1,), (2,))), ((2, 2, 2), ((0, 1), (1, 2))), ((2, 2, 2), ((0, 1), (1, 2), (0, 2)))]:
        n = int(np.prod(shape))
        for t in ((2, 4) if n == 4 else (2,) if TIER == "quick" else (2, 3, 4)):
            for ms in common.distinct_marginals(common.joints_up_to(shape, (t,)), s):
                yield s, ms, n, shape


def run_zero(case, ctx):
    s, ms, n, shape = case
    L = common.lists(s)
    for bits in range(1 << n):
        seed = np.array([(bits >> b) & 1 for b in range(n)], dtype=float).reshape(shape)
        got = hl.attempt(H.qisi, seed, L, ms)
        ctx.n("executions")
        ctx.n("transitions", int(ms[0].sum()))
        r = judge(ctx, "qisi(%s, %s, %s)" % (seed.tolist(), L, [m.tolist() for m in ms]), s, ms, seed, got, must_converge(s, seed))
        ctx.seen("outcomes", (s, bits, [m.tolist() for m in ms], r and (r[0].tolist(), r[1]["conv"])))


def main(replay=None):
    global H
    H = hl.load()
    stages = [
        Stage("choice-trees", gen_tree, run_tree, limit=120, hook=True),
        Stage("every-01-seed", gen_zero, run_zero, limit=120),
        Stage("exhaustion", gen_exhaust, run_exhaust, hook=True),
        Stage("structures-real-sequence", gen_struct, run_struct),
        Stage("scale-ladder", gen_ladder, run_struct, limit=240),
    ]

    def summ(t):
        return dict(states=len(t.sets["states"]), transitions=t.counts["transitions"],
                    traces_validated_against_impl=t.counts["validated"], executions=t.counts["executions"],
                    injected_exhaustions=t.counts["faults"], refused=t.counts["refused"], traces_with_more_than_one_admissible_outcome=t.counts["ambiguous"],
                    distinct_outcomes=len(t.sets["outcomes"]),
                    problems_with_guaranteed_convergence=t.counts["guaranteed"], problems_without=t.counts["unguaranteed"],
                    rule="states: distinct (seed, structure, remaining marginals, remaining expectation) reached by the model; transitions: draws; a trace "
                         "is validated when the real qisi, fed the trace's points through the hook, ends in the model's population",
                    samples=t.samples[:6])

    return harness.run_check("C02", stages, "model_checking", summ, replay, assumptions=[
        "choice trees branch on categories holding more than 1e-7 of the weight, represented by the middle of their interval",
        "whole trees are explored for populations up to 3 (thorough: 5); larger problems run on the real sequence only"])
