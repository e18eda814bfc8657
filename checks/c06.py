"""C06: the law by which qis draws its population: one Sobol point per individual, inverse-CDF, without replacement."""
import numpy as np

from checks import c01, common
from lib import harness, hl, ref, scen, tree
from lib.harness import Stage, TIER

H = None


def counts(shape, cells):
    a = np.zeros(shape, dtype=np.int64)
    for c in cells:
        a[c] += 1
    return a


def run_tree(case, ctx):
    """Every choice the environment can make, at both edges of each interval."""
    s, ms = case
    shape = common.dims_of(s, ms)
    L = common.lists(s)
    txt = "qis(%s, %s)" % (L, [m.tolist() for m in ms])
    outcomes = set()
    for cells, lo, hi, dead in tree.qis_paths(s, ms, len(shape), ctx):
        if dead:
            continue
        want = counts(shape, cells)
        for pts in (lo, hi):
            with hl.Stream(pts) as st:
                kind, got = hl.attempt(H.qis, L, ms)
            ctx.n("executions")
            if ctx.check(kind == "ok" and np.array_equal(got[0], want),
                         lambda: "%s on points %s: %s, the draws are %s" % (txt, pts.tolist(), got[0].tolist() if kind == "ok" else repr(got), cells)):
                ctx.n("validated")
        outcomes.add(want.tobytes())
    ctx.n("outcomes", len(outcomes))
    if outcomes:
        ctx.sample({"call": txt, "distinct populations over all environments": len(outcomes)})


def gen_real():
    yield from c01.gen_struct()
    for case in c01.gen_ladder():
        if int(case[1].sum()) <= (60000 if TIER == "thorough" else 9000):
            yield case


def run_real(case, ctx):
    s, j, k = case
    ms = scen.margs(j, s)
    L = common.lists(s)
    pop = int(j.sum())
    pts = ref.SobolRef.points(1 + ref.skipped(k), pop, j.ndim)
    want = ref.qis_run(s, ms, pts, j.ndim)
    kind, got = hl.attempt(H.qis, L, ms, k) if k else hl.attempt(H.qis, L, ms)
    ctx.n("executions")
    ctx.n("transitions", pop)
    txt = "qis(%s, %s, %d)" % (L, harness.show([m.tolist() for m in ms]), k)
    if want is None:
        # a draw with nothing to choose from: outside the law
        ctx.n("no_law")
        return
    if ctx.check(kind == "ok" and np.array_equal(got[0], want[0]),
                 lambda: "%s: %s, drawing from the sequence gives %s" % (txt, harness.show(got[0].tolist() if kind == "ok" else repr(got)), harness.show(want[0].tolist()))):
        ctx.n("lockstep")
        ctx.check(got[1]["conv"] == want[1], lambda: "%s: conv %r, drawing from the sequence gives %r" % (txt, got[1]["conv"], want[1]))


SKIPS = [0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 63, 64, 65, 127, 128, 129, 1000, 1 << 12, (1 << 16) - 1, (1 << 16) + 1, (1 << 20) + 3, 1 << 24]


def gen_skip():
    for s, shape in [(((0,), (1,)), (3, 4)), (((0, 1), (1, 2)), (2, 3, 4)), (((2,), (1, 0)), (3, 2, 4)), (((3, 1), (0, 2), (1,)), (2, 3, 2, 3))]:
        for k in SKIPS + ([(1 << 28) + 1, (1 << 31) - 1, 1 << 31] if TIER == "thorough" else []):
            yield s, scen.mixed(shape, 3, 6), k


def main(replay=None):
    global H
    H = c01.H = hl.load()
    stages = [
        Stage("choice-trees", c01.gen_tree, run_tree, limit=120, hook=True),
        Stage("skips", gen_skip, run_real, limit=600),
        Stage("real-sequence-lockstep", gen_real, run_real, limit=300),
    ]

    def summ(t):
        return dict(states=len(t.sets["states"]), transitions=t.counts["transitions"],
                    traces_validated_against_impl=t.counts["validated"] + t.counts["lockstep"], executions=t.counts["executions"],
                    distinct_populations_over_all_environments=t.counts["outcomes"], runs_without_a_law=t.counts["no_law"],
                    rule="states: distinct (structure, remaining marginals) the model reaches; transitions: draws; a trace is validated when the real "
                         "qis ends in the model's population, on the trace's points (through the hook) or on the same stretch of the Sobol sequence",
                    samples=t.samples[:6])

    return harness.run_check("C06", stages, "model_checking", summ, replay, assumptions=[
        "each category is represented by the lowest and the highest 32 bit coordinate that selects it",
        "whole choice trees for populations up to 4 (thorough: 5); larger ones in lockstep with the model on the real sequence"])
