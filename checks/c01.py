"""C01: a population synthesised by qis is integral, complete, and conv tells exactly whether the marginals are met."""
import itertools

import numpy as np

from checks import common
from lib import harness, hl, ref, scen, tree
from lib.harness import Stage, TIER

H = None


def judge(ctx, what, s, ms, got, must):
    kind, val = got
    if kind == "raised":
        ctx.n("refused")
        # only a sampler that painted itself into a corner may give up, and then with an orderly error
        ctx.check(not must and isinstance(val, RuntimeError), lambda: "%s: raised %r" % (what, val))
        return None
    res, st = val
    common.judge_population(ctx, what, s, ms, res, st, must)
    return res, st


def gen_tree():
    yield from common.tree_problems(TIER)


def run_tree(case, ctx):
    s, ms = case
    D = len(common.dims_of(s, ms))
    must = ref.running_intersection(s)
    L = common.lists(s)
    for cells, lo, hi, dead in tree.qis_paths(s, ms, D, ctx):
        # the model's own verdict on this path: the invariant every reachable state must satisfy
        want = np.zeros(common.dims_of(s, ms), dtype=np.int64)
        for c in cells:
            want[c] += 1
        if must:
            ctx.check(not dead and ref.satisfied(want, s, ms), lambda: "model: %s %s path %s violates the marginals" % (s, [m.tolist() for m in ms], cells))
        for pts in (lo, hi):
            if dead:
                # the draw after the last possible one: any coordinates
                pts = np.vstack([pts, np.full((1, D), 1 << 31, dtype=np.uint32)])
            with hl.Stream(pts):
                got = hl.attempt(H.qis, L, ms)
            ctx.n("executions")
            what = "qis(%s, %s) on points %s" % (L, [m.tolist() for m in ms], pts.tolist())
            r = judge(ctx, what, s, ms, got, must)
            if (r is None and dead) or (r is not None and np.array_equal(r[0], want)):
                ctx.n("validated")
            ctx.seen("outcomes", (s, [m.tolist() for m in ms], r and (r[0].tolist(), r[1]["conv"])))
    ctx.sample({"indices": s, "marginals": [m.tolist() for m in ms], "states": cells, "points": hi.tolist()})


# ------------------------------------------------------------ exhaustion of the sequence at every possible point

def gen_exhaust():
    for s, shape in [(((0,), (1,)), (2, 2)), (((0, 1), (1, 2)), (2, 2, 2)), (((1, 0), (2,)), (2, 3, 2))]:
        for seed in range(4):
            ms = scen.margs(scen.mixed(shape, seed, 2), s)
            for k in range(int(ms[0].sum()) + 1):
                yield s, ms, k


def run_exhaust(case, ctx):
    s, ms, k = case
    L = common.lists(s)
    pop = int(ms[0].sum())
    D = len(common.dims_of(s, ms))
    pts = ref.SobolRef.points(1, k, D)
    with hl.Stream(pts):
        got = hl.attempt(H.qis, L, ms)
    ctx.n("executions")
    ctx.n("transitions", k)
    ctx.n("faults")
    what = "qis(%s, %s) with %d points available" % (L, [m.tolist() for m in ms], k)
    if k < pop:
        ctx.check(got[0] == "raised", lambda: "%s: returned %r for a population it could not sample" % (what, got[1]))
    else:
        judge(ctx, what, s, ms, got, True)
    # a failed call leaves nothing behind
    again = hl.attempt(H.qis, L, ms)
    judge(ctx, what + ", then again with the real sequence", s, ms, again, True)


# ------------------------------------------------------------ the real sequence, all small structures

SKIPS = [0, 1, 2, 5, 1000]


def gen_struct():
    tier = TIER == "thorough"
    for s in itertools.chain(scen.structures(2, 2), scen.structures(2, 3)):
        for j in [scen.mixed((2, 3), 1), scen.mixed((3, 2), 2, 9, 3), scen.mixed((2, 2), 3, 40), scen.mixed((1, 3), 4, 7), np.zeros((2, 2), dtype=np.int64)]:
            for k in SKIPS:
                yield s, j, k
    for s in itertools.chain(scen.structures(3, 2), scen.structures(3, 3)):
        js = [scen.mixed((2, 3, 4), 1, 2), scen.mixed((3, 2, 2), 2, 6, 3)]
        if tier:
            js += [scen.mixed((2, 2, 2), 3, 30), scen.mixed((4, 3, 2), 4, 2, 2), scen.mixed((2, 1, 3), 5, 9)]
        for j in js:
            for k in (SKIPS if tier else SKIPS[:1]):
                yield s, j, k
    # marginals that agree in each dimension they share, but not in several of them together
    for i, (s, shape) in enumerate([(s, (2, 3)) for n in (2, 3) for s in scen.clashing(2, n)] + [(s, (2, 3, 2)) for n in (2, 3) for s in scen.clashing(3, n)]):
        if tier or i % 4 == 0 or len(shape) == 2 or len(s) == 2:
            for k in SKIPS if tier else SKIPS[:2]:
                yield s, scen.several(shape, len(s), i), k
    for i, s in enumerate(scen.structures(4, 2)):
        if tier or i % 3 == 0:
            yield s, scen.mixed((2, 3, 2, 3), i % 7, 3, 4 if i % 2 else 0), SKIPS[i % 5]


def run_struct(case, ctx):
    s, j, k = case
    ms = scen.margs(j, s)
    L = common.lists(s)
    got = hl.attempt(H.qis, L, ms, k) if k else hl.attempt(H.qis, L, ms)
    must = ref.running_intersection(s) and not isinstance(j, scen.Several)
    ctx.n("executions")
    ctx.n("transitions", int(j.sum()))
    ctx.n("guaranteed" if must else "unguaranteed")
    r = judge(ctx, "qis(%s, %s, %d)" % (L, [m.tolist() for m in ms], k), s, ms, got, must)
    ctx.seen("outcomes", (s, j.tolist(), k, r and r[1]["conv"]))


def gen_ladder():
    for i, (shape, s) in enumerate(scen.LADDER):
        big = int(np.prod(shape)) > 3000
        for hi, zeros in ([(3, 0)] if big else [(1, 0), (1, 2), (9, 0), (9, 3), (60, 0)] if int(np.prod(shape)) > 200 else [(1, 0), (1, 2), (9, 0), (9, 3), (700, 0)]):
            for k in (0, 3, 70, 1 << 20) if not big else (0, 9):
                if hi > 50 and k not in (0, 70):
                    continue
                yield s, scen.mixed(shape, i, hi, zeros), k
    for i, (shape, s) in enumerate(scen.EXTREME):
        for k in (0, 9):
            yield s, scen.sparse(shape, 24, i + k), k
    for shape, s, t in [((2, 2), [(0,), (1,)], 1 << 17), ((3, 2, 2), [(0, 1), (1, 2)], 30000), ((2, 2, 2), [(2,), (0, 1)], 1 << 18)]:
        yield s, scen.mixed(shape, 3, t), 0
    if TIER == "thorough":
        for shape, s, t in [((2, 2), [(0,), (1,)], 1 << 22), ((3, 5), [(1,), (0,)], 1 << 20), ((2, 2, 2), [(0, 1), (1, 2)], 1 << 21),
                            ((2,) * 14, [(i,) for i in range(14)], 9), ((2,) * 16, [(i, i + 1) for i in range(15)], 2), ((1000, 30), [(0,), (1,)], 9)]:
            yield s, scen.mixed(shape, 3, t), 5


def main(replay=None):
    global H
    H = hl.load()
    stages = [
        Stage("choice-trees", gen_tree, run_tree, limit=120, hook=True),
        Stage("exhaustion", gen_exhaust, run_exhaust, hook=True),
        Stage("structures-real-sequence", gen_struct, run_struct),
        Stage("scale-ladder", gen_ladder, run_struct, limit=240),
    ]

    def summ(t):
        return dict(states=len(t.sets["states"]), transitions=t.counts["transitions"],
                    traces_validated_against_impl=t.counts["validated"], executions=t.counts["executions"],
                    injected_exhaustions=t.counts["faults"], refused=t.counts["refused"],
                    distinct_outcomes=len(t.sets["outcomes"]),
                    problems_with_guaranteed_convergence=t.counts["guaranteed"], problems_without=t.counts["unguaranteed"],
                    rule="states: distinct (structure, remaining marginals) reached by the model; transitions: draws; a trace is validated "
                         "when the real qis, fed the trace's points through the hook, ends in the model's population",
                    samples=t.samples[:6])

    return harness.run_check("C01", stages, "model_checking", summ, replay, assumptions=[
        "whole choice trees are explored for populations up to 4 (thorough: 5) in 2 dimensions and 3 (4) in 3 dimensions, axis sizes up to 3 (4)",
        "larger structures, sizes and populations are run on the real quasirandom sequence only"])
