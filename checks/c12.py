"""C12: flatten lists every individual exactly once, with the category it has in each dimension."""
import itertools

import numpy as np

from lib import harness, hl, ref, scen
from lib.harness import Stage, TIER

H = None


def run(a, ctx):
    kind, got = hl.attempt(H.flatten, a)
    ctx.n("evaluations")
    what = "flatten(%s)" % harness.show(a.tolist())
    if not ctx.check(kind == "ok" and isinstance(got, list), lambda: "%s: %r" % (what, got)):
        return
    pop = int(a.sum())
    if not ctx.check(len(got) == a.ndim and all(len(c) == pop for c in got), lambda: "%s: %d columns of lengths %s, should be %d of length %d" % (
            what, len(got), [len(c) for c in got], a.ndim, pop)):
        return
    if pop == 0:
        return
    ctx.n("nontrivial")
    cols = np.array(got)
    if not ctx.check(np.issubdtype(cols.dtype, np.integer) and bool((cols >= 0).all()) and all((c < n).all() for c, n in zip(cols, a.shape)),
                     lambda: "%s: a category that does not exist in %s" % (what, harness.show(got))):
        return
    back = np.zeros(a.shape, dtype=np.int64)
    np.add.at(back, tuple(cols), 1)
    ctx.check(np.array_equal(back, a), lambda: "%s: %s counts up to %s" % (what, harness.show(got), harness.show(back.tolist())))
    if a.size < 9 and 2 < pop < 12:
        ctx.sample({"population": a.tolist(), "table": got})


def gen_small():
    thorough = TIER == "thorough"
    for shape, hi in [((1,), 5), ((2,), 5), ((3,), 4), ((5,), 2), ((1, 1), 3), ((2, 2), 4), ((2, 3), 2), ((3, 2), 2), ((1, 4), 3), ((4, 1), 3), ((2, 2, 2), 1), ((2, 1, 2), 3), ((1, 2, 3), 2), ((3, 2, 1), 2),
                      ((2, 1, 1, 2), 3), ((1, 2, 1, 2, 1), 2)] + ([((2, 2, 2), 2), ((3, 3), 2), ((2, 2, 3), 1), ((2, 2), 9), ((2, 2, 2, 2), 1), ((2, 2, 1, 2), 2)] if thorough else []):
        yield from scen.all_arrays(shape, range(hi + 1))


def gen_large():
    # one individual in every cell of larger arrays, one cell at a time
    for shape in [(7, 5), (5, 7), (3, 4, 5), (5, 4, 3), (2, 3, 4, 5), (4, 1, 3, 2, 2), (2,) * 8, (130, 2), (2, 130), (3, 70, 2), (300,)]:
        n = int(np.prod(shape))
        for i in range(n):
            a = np.zeros(shape, dtype=np.int64)
            a.flat[i] = 1 + i % 3
            yield a
    for i, (shape, _) in enumerate(scen.EXTREME):
        for n in (1, 24, 500):
            yield scen.sparse(shape, n, i)
    for i in range(40 if TIER == "quick" else 400):
        for shape in [(3, 4), (7, 5, 3), (2, 3, 2, 3), (2,) * 9, (100, 3), (2, 2, 50)]:
            yield scen.mixed(shape, i, (1, 3, 20)[i % 3], (0, 2)[i % 2])
    for shape, hi in [((2, 2), 50000), ((3,), 200000), ((40, 40), 100), ((2,) * 14, 3), ((1000, 7), 9)] + ([((2, 3, 4), 200000), ((2,) * 17, 4)] if TIER == "thorough" else []):
        yield scen.mixed(shape, 1, hi)


def gen_bad():
    # negative counts, alone or balanced by others
    for shape in [(1,), (3,), (2, 2), (2, 3), (2, 2, 2)]:
        n = int(np.prod(shape))
        for v in (-1, -2, -1000, -(1 << 31), -(1 << 63)):
            for i in range(n):
                for fill in (0, 1, 5):
                    a = np.full(shape, fill, dtype=np.int64)
                    a.flat[i] = v
                    yield a
    big = (1 << 63) - 1
    yield np.array([big, big, 5])
    yield np.array([big, big, 2])
    yield np.array([[big, 1], [big, 9]])
    yield np.array([big])
    yield np.zeros((0,), dtype=np.int64)
    yield np.zeros((2, 0), dtype=np.int64)
    yield np.zeros((0, 3, 2), dtype=np.int64)
    yield np.array(3)


def run_bad(a, ctx):
    kind, got = hl.attempt(H.flatten, a)
    ctx.n("evaluations")
    ctx.n("malformed")
    if a.size == 0 and kind == "ok":
        # nobody: an empty table is as good as a refusal
        ctx.check(len(got) == a.ndim and not any(len(c) for c in got), lambda: "flatten of shape %s: %r" % (a.shape, got))
        return
    ctx.check(kind == "raised", lambda: "flatten(%s) was accepted: %s" % (a.tolist(), harness.show(got)))


def gen_pipeline():
    for shape, s in scen.LADDER:
        if np.prod(shape) < 3000:
            yield shape, s, scen.mixed(shape, 1, 3)
    for i, (shape, s) in enumerate(scen.EXTREME):
        if len(s) < 60:
            yield shape, s, scen.sparse(shape, 24, i)


def run_pipeline(case, ctx):
    """The table of a synthesised population has the marginals that were asked for."""
    shape, s, j = case
    ms = scen.margs(j, s)
    res, st = H.qis([list(i) for i in s], ms)
    run(res, ctx)
    if st["conv"]:
        cols = np.array(H.flatten(res))
        for i, m in zip(s, ms):
            back = np.zeros(m.shape, dtype=np.int64)
            np.add.at(back, tuple(cols[list(i)]), 1)
            ctx.check(np.array_equal(back, m), lambda: "the table of qis(%s, ...) counts up to %s for %s" % (s, back.tolist(), i))


def main(replay=None):
    global H
    H = hl.load()
    stages = [Stage("every-small-array", gen_small, run), Stage("large", gen_large, run), Stage("malformed", gen_bad, run_bad), Stage("of-synthesised-populations", gen_pipeline, run_pipeline)]

    def summ(t):
        return dict(evaluations=t.counts["evaluations"], distinct_nontrivial=t.counts["nontrivial"], malformed=t.counts["malformed"],
                    rule="every array of small counts up to the listed shapes, one individual in every cell of larger ones, irregular larger ones; all distinct; non-trivial: somebody lives there",
                    samples=t.samples[:4])

    return harness.run_check("C12", stages, "exploration", summ, replay, assumptions=["the order of the rows is not part of the property"])
