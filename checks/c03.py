"""C03: what ipf reports about its result (conv, maxError, iterations, pop) is true, and it converges when it must."""
import numpy as np

from checks import common, ipfcases
from lib import harness, hl, ref
from lib.harness import Stage

H = None


def run(case, ctx):
    s, ms, seed, label = case
    L = common.lists(s)
    what = "ipf(%s, %s, %s)" % (harness.show(seed.tolist()), L, harness.show([m.tolist() for m in ms]))
    kind, val = hl.attempt(H.ipf, seed, L, ms)
    ctx.n("evaluations")
    if not ctx.check(kind == "ok", lambda: "%s: raised %r" % (what, val)):
        return
    res, st = val
    res = np.asarray(res)
    if not ctx.check(res.shape == seed.shape and res.dtype == np.float64, lambda: "%s: shape %s, dtype %s" % (what, res.shape, res.dtype)):
        return
    tot = float(ms[0].sum())
    ctx.check(np.isfinite(res).all() and res.min() >= 0, lambda: "%s: negative or non-finite %s" % (what, res.tolist()))
    e = ref.max_error(res, s, ms)
    tol = 1e-13 * max(1.0, tot) * max(1, seed.size) ** 0.5
    ctx.check(abs(e - st["maxError"]) <= tol, lambda: "%s: maxError %r, really %r" % (what, st["maxError"], e))
    ctx.check(isinstance(st["conv"], bool), lambda: "%s: conv %r" % (what, st["conv"]))
    if abs(e - 1e-8) > 2 * tol:
        ctx.check(st["conv"] == (e < 1e-8), lambda: "%s: conv %r with error %r" % (what, st["conv"], e))
    ctx.check(st["pop"] == int(tot + 0.5), lambda: "%s: pop %r for a total of %r" % (what, st["pop"], tot))
    it = st["iterations"]
    ctx.check(1 <= it <= 1000 and (st["conv"] or it == 1000), lambda: "%s: iterations %r, conv %r" % (what, it, st["conv"]))
    if (seed > 0).all() and ipfcases.disjoint(s) and label == "joint":
        ctx.n("guaranteed")
        ctx.check(st["conv"], lambda: "%s: did not converge: error %r" % (what, e))
    # it stops as soon as it has converged
    if seed.size <= 800:
        x, conv, n, e2 = ref.ipf_run(seed, s, ms)
        ctx.n("model_sweeps", n)
        if conv == st["conv"]:
            ctx.check(abs(n - it) <= 1 + n // 200, lambda: "%s: %d iterations, %d are needed" % (what, it, n))
    if tot > 0 and it > 1:
        ctx.seen("nontrivial", (s, [m.tolist() for m in ms], seed.tolist()))
    ctx.seen("outcomes", (st["conv"], it, round(e, 6)))
    if it > 2:
        ctx.sample({"seed": seed.tolist(), "indices": s, "marginals": [m.tolist() for m in ms], "conv": st["conv"], "iterations": it, "maxError": st["maxError"]})


def main(replay=None):
    global H
    H = hl.load()
    stages = [Stage("problems", ipfcases.gen, run, limit=120)]

    def summ(t):
        return dict(evaluations=t.counts["evaluations"], distinct_nontrivial=len(t.sets["nontrivial"]),
                    rule="every problem of the bounded space of checks/ipfcases.py (index structures x populations x seeds); non-trivial: population > 0 and "
                         "more than one sweep needed", must_converge=t.counts["guaranteed"], model_sweeps=t.counts["model_sweeps"],
                    distinct_reports=len(t.sets["outcomes"]), samples=t.samples[:4])

    return harness.run_check("C03", stages, "exploration", summ, replay, assumptions=[
        "populations up to 10^6: beyond that the absolute tolerance 1e-8 is below double rounding"])
