"""C08: SobolSequence produces exactly the Joe-Kuo Sobol points, in (0,1), in order, in every dimension up to 1111."""
import itertools
import os
import subprocess
import tempfile

import numpy as np

from lib import build, harness, hl, ref
from lib.harness import Stage, TIER

H = None
SCALE = 2.0 ** -32


def compare(ctx, what, gen, start, count, dim, block=4096):
    """The next count points of gen against the definition, point by point."""
    done = 0
    while done < count:
        n = min(block, count - done)
        want = ref.SobolRef.points(start + done, n, dim)
        for i in range(n):
            p = next(gen, None)
            if not ctx.check(p is not None, lambda: "%s: point %d does not exist" % (what, start + done + i)):
                return False
            if p.shape != (dim,) or p.dtype != np.float64 or not np.array_equal(p, want[i] * SCALE):
                bad = "shape %s" % (p.shape,) if p.shape != (dim,) else "dimension %d: %r, should be %r" % (
                    lambda d: (d, p[d], want[i][d] * SCALE))(int(np.argmax(p != want[i] * SCALE)))
                ctx.fail("%s: point %d, %s" % (what, start + done + i, bad))
                return False
        done += n
    ctx.n("evaluations", count)
    ctx.n("distinct", count)
    ctx.n("coordinates", count * dim)
    return True


def gen_dims():
    full = 1 << (16 if TIER == "thorough" else 10)
    for d in range(1, 1112):
        yield d, 1 << 14 if d <= 6 else full if d <= 12 or d % 100 == 11 else 1 << 12 if TIER == "thorough" else 512


def run_dims(case, ctx):
    d, n = case
    ctx.seen("dims", d)
    compare(ctx, "SobolSequence(%d)" % d, H.SobolSequence(d), 1, n, d)


# every direction number: bit b of the index first matters at point 2^b
def gen_bits():
    if TIER == "quick":
        plan = [(31, 2), (24, 1111), (30, 6), (29, 12), (28, 30), (27, 64), (26, 150), (25, 300), (23, 1111), (22, 1111)]
    else:
        plan = [(31, 40), (30, 100), (29, 250), (28, 500), (27, 1111), (26, 1111)]
    plan += [(b, 1111) for b in range(21, 9, -1)]
    return plan


def run_bits(case, ctx):
    b, d = case
    skip = (1 << b) + 1
    ctx.seen("bits", (b, d))
    compare(ctx, "SobolSequence(%d, %d)" % (d, skip), H.SobolSequence(d, skip), (1 << b) + 1, 70, d)


def gen_strata():
    for d in (1, 2, 3, 10, 100, 500, 1000, 1111):
        yield d, 12 if TIER == "quick" else 14


def run_strata(case, ctx):
    """Independently of the table: any 2^k points from the origin on fall one in each interval of width 2^-k, in every dimension."""
    d, k = case
    n = 1 << k
    pts = np.zeros((n, d))
    for i, p in zip(range(1, n), H.SobolSequence(d)):
        pts[i] = p
    ctx.n("evaluations", n)
    ctx.check(bool(((pts[1:] > 0) & (pts[1:] < 1)).all()), "SobolSequence(%d): a coordinate outside (0,1)" % d)
    for q in range(1, k + 1):
        cell = np.floor(pts[:1 << q] * (1 << q)).astype(int)
        cell.sort(axis=0)
        ctx.check(bool((cell == np.arange(1 << q)[:, None]).all()), "SobolSequence(%d): the first %d points are not one per interval" % (d, 1 << q))


def gen_deep():
    # the whole second half of the sequence, and the end of it, point by point
    yield 1, (1 << 31) + 1, 1
    if TIER == "thorough":
        yield 2, 0, 0
        for k in range(3, 31):
            yield k % 5 + 1, 0, k


BIN = None


def run_deep(case, ctx):
    dim, skip, first = case
    V = np.ascontiguousarray(ref.SobolRef.table()[:, :dim])
    with tempfile.NamedTemporaryFile() as f:
        f.write(V.astype("<u4").tobytes())
        f.flush()
        p = subprocess.run([BIN, str(dim), str(skip), f.name], stdout=subprocess.PIPE, text=True)
    ctx.check(p.returncode == 0, lambda: "Sobol(%d) skip %d: %s" % (dim, skip, p.stdout.strip() or "exit %d" % p.returncode))
    if p.returncode == 0:
        ctx.n("evaluations", int(p.stdout.split()[0]))
        ctx.n("distinct", int(p.stdout.split()[0]))
        ctx.n("coordinates", int(p.stdout.split()[0]) * dim)


def deep_binary(ctx_notes):
    """The C++ harness, or None if the class it drives no longer has the interface it needs."""
    try:
        return build.cxx_harness("sobol_deep", ["harness/sobol_deep.cpp", "src/Sobol.cpp", "src/SobolImpl.cpp"])
    except build.BuildError as e:
        ctx_notes["deep stage left out"] = str(e)[-300:]
        return None


def main(replay=None):
    global H, BIN
    H = hl.load()
    notes = {}
    BIN = deep_binary(notes)
    ref.SobolRef.table()
    stages = [
        Stage("every-dimension", gen_dims, run_dims, limit=600),
        Stage("every-direction-bit", gen_bits, run_bits, limit=3000),
        Stage("stratification", gen_strata, run_strata, limit=300),
    ]
    if BIN:
        stages.append(Stage("to-the-end", gen_deep, run_deep, limit=3000))

    def summ(t):
        return dict(evaluations=t.counts["evaluations"], distinct_nontrivial=t.counts["distinct"],
                    coordinates=t.counts["coordinates"], dimensions=len(t.sets["dims"]), direction_bits_reached=len(t.sets["bits"]),
                    rule="an evaluation is one point of a generator; distinct ones differ in (dimension, index), and all but those of the stratification stage are compared "
                         "with the point the definition gives for that index: XOR of the direction numbers selected by its Gray code",
                    samples=[{"SobolSequence": list(c)} for c in itertools.islice(gen_bits(), 3)] + t.samples[:2])

    return harness.run_check("C08", stages, "exploration", summ, replay, pre_notes=notes, assumptions=[
        "the reference direction numbers (data/joe_kuo.json) are right: they reproduce Joe and Kuo's construction and satisfy the stratification checked here",
        "indices with bits above 24 set are reached in the leading dimensions only"])
