"""C09: Sobol generators are independent iterators with the documented skip, that end with StopIteration."""
import itertools

import numpy as np

from lib import harness, hl, ref
from lib.harness import Stage, TIER

H = None
SCALE = 2.0 ** -32

# ------------------------------------------------------------ every operation sequence

NEW = [(2,), (3, 5), (1, 1), (2, 64)]
QIS = ([[0], [1]], [np.array([3, 2]), np.array([1, 4])])
OPS = [("new", i) for i in range(len(NEW))] + [("next", i) for i in range(3)] + [("other", 0), ("bad", 0)]
DEPTH = 7 if TIER == "quick" else 8


def legal(seq):
    """next(i) only on a generator that exists, and no more than three of them"""
    n = 0
    for op, i in seq:
        if op == "new":
            n += 1
            if n > 3:
                return False
        elif op == "next" and i >= n:
            return False
    return True


def gen_ops():
    """One case per prefix of length 3; all its extensions to the depth are explored inside."""
    for p in itertools.product(OPS, repeat=3):
        if legal(p):
            yield p


def run_ops(prefix, ctx):
    def replay(seq):
        """Builds the state from the history with real objects, checking every step."""
        gens, model = [], []
        for op, i in seq:
            if op == "new":
                gens.append(H.SobolSequence(*NEW[i]))
                model.append([NEW[i][0], 1 + ref.skipped(NEW[i][1] if len(NEW[i]) > 1 else 0)])
            elif op == "next":
                p = next(gens[i])
                d, n = model[i]
                if not np.array_equal(p, ref.SobolRef.point(n, d) * SCALE):
                    ctx.fail("after %s: %s, should be point %d of the %d-dimensional sequence" % (seq, p.tolist(), n, d))
                    return model
                model[i][1] += 1
            elif op == "other":
                H.qis(*QIS)
            else:
                kind, e = hl.attempt(H.SobolSequence, 0)
                ctx.check(kind == "raised", "SobolSequence(0) was accepted")
        # whatever the history, each generator goes on from where it was
        for g, (d, n) in zip(gens, model):
            if not np.array_equal(next(g), ref.SobolRef.point(n, d) * SCALE):
                ctx.fail("after %s: the generator at point %d of %d dimensions went elsewhere" % (seq, n, d))
        return model

    todo = [list(prefix)]
    while todo:
        seq = todo.pop()
        if len(seq) == DEPTH:
            model = replay(seq)
            ctx.n("sequences")
            ctx.n("transitions", len(seq))
            ctx.seen("states", tuple(map(tuple, model)))
            continue
        for op in OPS:
            if legal(seq + [op]):
                todo.append(seq + [op])
    ctx.sample({"operations": seq})


# ------------------------------------------------------------ skips

def gen_skips():
    for n in range(0, 2100 if TIER == "quick" else 70000):
        yield n
    for b in range(12, 32):
        for n in ((1 << b) - 1, 1 << b, (1 << b) + 1, 3 << (b - 1)):
            if n < 1 << 32 and (n > 2100 if TIER == "quick" else n > 70000):
                yield n
    yield (1 << 32) - 1


def run_skips(n, ctx):
    for d in (1, 2, 5) if n < 1 << 24 else (1,):
        g = H.SobolSequence(d, n)
        start = 1 + ref.skipped(n)
        for i in range(3):
            p = next(g)
            ctx.n("transitions")
            ctx.check(p.shape == (d,) and np.array_equal(p, ref.SobolRef.point(start + i, d) * SCALE),
                      lambda: "SobolSequence(%d, %d): value %d is %s, should be point %d of the sequence: %s" % (
                          d, n, i, p.tolist(), start + i, (ref.SobolRef.point(start + i, d) * SCALE).tolist()))
        ctx.seen("states", (d, start))
    ctx.n("sequences")


# ------------------------------------------------------------ exhaustion

def gen_end():
    for d in range(1, 5):
        for k in range(8):
            for other in (False, True):
                yield d, k, other


def run_end(case, ctx):
    d, k, other = case
    pts = ref.SobolRef.points(1, k, d)
    with hl.Stream(pts):
        g = H.SobolSequence(d)
        got = list(g)
        again = [next(g, "end") for _ in range(3)]
        late = hl.attempt(next, g)
    ctx.n("sequences")
    ctx.n("transitions", k + 4)
    ctx.n("faults")
    ctx.check(len(got) == k and all(np.array_equal(a, b * SCALE) for a, b in zip(got, pts)), lambda: "a sequence of %d points in %d dimensions iterates as %s" % (k, d, got))
    ctx.check(again == ["end"] * 3 and late[0] == "raised" and isinstance(late[1], StopIteration),
              lambda: "a sequence of %d points in %d dimensions, at its end: %s, %r" % (k, d, again, late))
    if other:
        # nothing of that is left behind
        ctx.check(np.array_equal(next(H.SobolSequence(d)), np.full(d, 0.5)), "a new generator after an exhausted one")


# ------------------------------------------------------------ arguments, the iterator protocol, results

BAD_DIM = [0, -1, 1112, 1113, 4096, 65536, (1 << 31) - 1, 1 << 31, 1 << 32, (1 << 32) + 1, (1 << 32) + 1111, 1 << 33, 1 << 40, (1 << 63) - 1, 1 << 63,
           (1 << 64) - 1, 1 << 64, (1 << 64) + 2, -(1 << 63), 2.5, "3", None, [2]]
BAD_SKIP = [-1, -2, 1 << 32, (1 << 32) + 1, 1 << 40, -(1 << 31), -(1 << 63), 1 << 64, 0.5, "1", None]


def gen_args():
    for d in BAD_DIM:
        yield (d,)
        yield d, 0
        yield d, 3
    for k in BAD_SKIP:
        for d in (1, 2, 1111):
            yield d, k
    yield ()
    yield 1, 2, 3
    for d in list(range(1, 40)) + [1110, 1111]:
        yield "good", d


def run_args(case, ctx):
    ctx.n("sequences")
    if case[:1] == ("good",):
        d = case[1]
        g = H.SobolSequence(d)
        a = next(g)
        ctx.check(iter(g) is g, "iter() of a generator is another object")
        ctx.check(a.shape == (d,) and (a == 0.5).all(), lambda: "SobolSequence(%d) starts with %s" % (d, a))
        # a point that was handed out does not change, nor does changing it change the sequence
        a[:] = 7
        b = next(g)
        keep = b.copy()
        c = next(g)
        ctx.check(np.array_equal(b, keep) and np.array_equal(b, ref.SobolRef.point(2, d) * SCALE) and np.array_equal(c, ref.SobolRef.point(3, d) * SCALE),
                  lambda: "SobolSequence(%d): points share storage" % d)
        ctx.check(sum(1 for _ in itertools.islice(g, 10)) == 10 and np.array_equal(next(g), ref.SobolRef.point(14, d) * SCALE),
                  lambda: "SobolSequence(%d): iterating with for does not go on from where it was" % d)
        h = H.SobolSequence(dim=d, skips=3)
        ctx.check(np.array_equal(next(h), ref.SobolRef.point(3, d) * SCALE), lambda: "SobolSequence(dim=%d, skips=3)" % d)
    else:
        kind, e = hl.attempt(H.SobolSequence, *case)
        ctx.check(kind == "raised", lambda: "SobolSequence%r was accepted" % (case,))


def main(replay=None):
    global H
    H = hl.load()
    ref.SobolRef.table()
    stages = [
        Stage("operation-sequences", gen_ops, run_ops, limit=600),
        Stage("exhaustion", gen_end, run_end, hook=True),
        Stage("arguments", gen_args, run_args),
        Stage("skips", gen_skips, run_skips, limit=900),
    ]

    def summ(t):
        return dict(states=len(t.sets["states"]), transitions=t.counts["transitions"], traces_validated_against_impl=t.counts["sequences"],
                    injected_exhaustions=t.counts["faults"], depth=DEPTH,
                    rule="a state is the tuple of (dimension, index of the next point) of the live generators; every sequence of operations (create with and without skips, "
                         "next on any live generator, a sampler call, a refused construction) up to the depth is run from scratch on real generators in lockstep with that state",
                    samples=t.samples[:4])

    return harness.run_check("C09", stages, "model_checking", summ, replay, assumptions=[
        "up to three live generators; the exhaustion of a real sequence is reached by C08's last stage, here it is injected after 0..7 points"])
