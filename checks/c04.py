"""C04: an ipf result is the seed times one factor per marginal cell: the seed's association structure, and only that."""
import itertools

import numpy as np

from checks import common, ipfcases
from lib import harness, hl, ref, scen
from lib.harness import Stage

H = None


def design(shape, s):
    """One indicator column per marginal cell."""
    cols = []
    for idx in s:
        sub = tuple(shape[d] for d in idx)
        for c in np.ndindex(*sub):
            a = np.zeros(sub)
            a[c] = 1
            cols.append(np.broadcast_to(ref.expand(a, list(idx), len(shape)), shape).ravel())
    return np.array(cols).T


def solve(seed, s, ms):
    kind, val = hl.attempt(H.ipf, seed, common.lists(s), ms)
    return (np.asarray(val[0]), val[1]) if kind == "ok" else (None, val)


def run(case, ctx):
    s, ms, seed, label = case
    what = "ipf(%s, %s, %s)" % (harness.show(seed.tolist()), common.lists(s), harness.show([m.tolist() for m in ms]))
    ctx.n("evaluations")
    res, st = solve(seed, s, ms)
    if not ctx.check(res is not None and res.shape == seed.shape, lambda: "%s: %r" % (what, st)):
        return
    ctx.check(not res[seed == 0].any(), lambda: "%s: population where the seed is zero: %s" % (what, res.tolist()))
    D = seed.ndim
    closed = np.zeros(seed.shape, dtype=bool)
    for i, m in zip(s, ms):
        closed |= np.broadcast_to(ref.expand(m, list(i), D) == 0, seed.shape)
    ctx.check(not res[closed].any(), lambda: "%s: population where a marginal is zero: %s" % (what, res.tolist()))
    if not st["conv"]:
        ctx.n("unconverged")
        return
    ctx.n("converged")
    tot = max(float(ms[0].sum()), 1e-300)
    live = (seed > 0) & ~closed
    # cells that vanish only in the limit carry no information about the factors
    keep = live & (res > 1e-6 * tot / seed.size)
    if live.any() and keep.sum() == live.sum() and seed.size <= 400:
        y = np.log(res[keep] / seed[keep])
        X = design(seed.shape, s)[keep.ravel()]
        coef, *_ = np.linalg.lstsq(X, y, rcond=None)
        r = float(np.abs(X @ coef - y).max())
        ctx.n("structure_checked")
        ctx.check(r < 1e-6, lambda: "%s: %s is not the seed times a factor per marginal cell (residual %g)" % (what, res.tolist(), r))
        if int(keep.sum()) > np.linalg.matrix_rank(X) if seed.size <= 60 else True:
            ctx.seen("nontrivial", (s, [m.tolist() for m in ms], seed.tolist()))
    elif live.any() and keep.sum() == live.sum():
        x, conv, _, _ = ref.ipf_run(seed, s, ms)
        if conv:
            ctx.n("structure_checked")
            ctx.check(np.allclose(x, res, rtol=1e-6, atol=1e-7 * max(1, tot)), lambda: "%s: differs from the reference solution by %g" % (what, np.abs(x - res).max()))
            ctx.seen("nontrivial", (s, [m.tolist() for m in ms], seed.tolist()))
    # the solution does not depend on how the problem is written down
    scale = np.abs(res).max() + 1e-300
    variants = [("marginals listed backwards", seed, s[::-1], ms[::-1], None), ("seed scaled by 7.5", seed * 7.5, s, ms, None)]
    p = tuple(np.roll(np.arange(D), 1))           # new axis k is old axis p[k]
    inv = [p.index(d) for d in range(D)]
    variants.append(("axes rotated", np.ascontiguousarray(np.transpose(seed, p)), [tuple(inv[d] for d in i) for i in s], ms, p))
    variants.append(("marginal axes reversed", seed, [tuple(reversed(i)) for i in s], [np.ascontiguousarray(m.T) for m in ms], None))
    f = 0.5 + (np.arange(seed.shape[s[0][0]]) % 3)
    variants.append(("seed rescaled along dimension %d" % s[0][0], seed * ref.expand(f, [s[0][0]], D), s, ms, None))
    # the units the seed comes in do not matter, however small or large (powers of two, and one that rounds)
    k = int(res.sum() * 97) % 3
    extremes = [("seed scaled by 2^-160", seed * 2.0 ** -160), ("seed scaled by 2^-700", seed * 2.0 ** -700), ("seed scaled by 2^500", seed * 2.0 ** 500),
                ("seed scaled by 1e-30", seed * 1e-30), ("seed scaled by 1e25", seed * 1e25), ("seed scaled by 1e-9", seed * 1e-9)]
    variants += [(n, sd, s, ms, None) for n, sd in (extremes if seed.size <= 60 else extremes[k::3])]
    # neither does the spread between its cells: one factor of 2^-160 along a dimension
    d = s[-1][-1]
    f = np.where(np.arange(seed.shape[d]) % 2, 2.0 ** -160, 1.0)
    variants.append(("seed scaled by 2^-160 in odd categories of dimension %d" % d, seed * ref.expand(f, [d], D), s, ms, None))
    if seed.size > 1000:
        variants = variants[:4]
    for name, sd, s2, ms2, perm in variants:
        r2, st2 = solve(sd, s2, ms2)
        ctx.n("evaluations")
        if not ctx.check(r2 is not None, lambda: "%s with %s: raised %r" % (what, name, st2)):
            continue
        if name.startswith("seed scaled by") and not name.count("odd") and st.get("iterations", 0) < 700 and sd.max() < 1e290:
            ctx.check(st2["conv"], lambda: "%s: converges, but not with %s" % (what, name))
        if not st2["conv"] or keep.sum() != live.sum():
            continue
        want = np.transpose(res, perm) if perm else res
        ctx.n("variants_compared")
        ctx.check(r2.shape == want.shape and np.allclose(r2, want, rtol=1e-5, atol=1e-6 * scale),
                  lambda: "%s: changes with %s: %s" % (what, name, r2.tolist()))
    ctx.sample({"seed": seed.tolist(), "indices": s, "marginals": [m.tolist() for m in ms], "result": res.tolist()})


def main(replay=None):
    global H
    H = hl.load()
    stages = [Stage("problems", ipfcases.gen, run, limit=120)]

    def summ(t):
        return dict(evaluations=t.counts["evaluations"], distinct_nontrivial=len(t.sets["nontrivial"]),
                    rule="every problem of the bounded space of checks/ipfcases.py plus its rewritings (marginals reversed, axes rotated, seed rescaled); non-trivial: "
                         "converged with fewer free factors than cells, so that the structure is a constraint",
                    converged=t.counts["converged"], unconverged=t.counts["unconverged"], structure_checked=t.counts["structure_checked"],
                    variants_compared=t.counts["variants_compared"], samples=t.samples[:3])

    return harness.run_check("C04", stages, "exploration", summ, replay, assumptions=[
        "the structure is judged where ipf reports convergence and no cell vanishes only in the limit"])
