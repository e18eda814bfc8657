"""C18: what a call takes it gives back: repeated calls, successful, refused or failing half way, do not grow the process or keep their arguments."""
import array
import ctypes
import gc
import os
import sys
import tracemalloc

import numpy as np

from checks import c01, c02, c09, c10, c11, c12, c13, c14, c15
from lib import build, harness, hl, ref, rops, rside, scen
from lib.harness import Ctx, Stage, TIER

H = None
WARM, CALLS, ROUNDS = 3, 8, 60
LASTED = 0


COUNTS = None


class Mallinfo2(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in "arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost".split()]


MALLINFO = ctypes.CDLL(None).mallinfo2
MALLINFO.restype = Mallinfo2


def held():
    """Bytes and blocks operator new has handed out, bytes of Python's objects and numpy's arrays, and bytes malloc has handed out to anybody."""
    m = MALLINFO()
    return COUNTS[0].value, COUNTS[1].value, tracemalloc.get_traced_memory()[0], m.uordblks + m.hblkhd


SEEN = array.array("q", [0] * (4 * (ROUNDS + 1)))
# the least that one call leaks: bytes of operator new, blocks of it, bytes of Python's, bytes of malloc's (32, less what Python gives back meanwhile)
LEAST = (8, 1, 24, 12)


def grows(f, calls=CALLS):
    """None, or what is held after each round of calls, if every round ended with more than it began with."""
    global LASTED
    for _ in range(WARM):
        f()
    gc.collect()
    sys._clear_type_cache()
    SEEN[0], SEEN[1], SEEN[2], SEEN[3] = held()
    for n in range(4, 4 * ROUNDS + 4, 4):
        for _ in range(calls):
            f()
        # objects in cycles are not leaked, nor are those the interpreter's cache of attributes holds
        gc.collect()
        sys._clear_type_cache()
        SEEN[n], SEEN[n + 1], SEEN[n + 2], SEEN[n + 3] = held()
        # something for each call of the round
        more = [SEEN[n + k] - SEEN[n + k - 4] for k in range(4)]
        # (what malloc hands out includes Python's objects and tracemalloc's records of them)
        more[3] -= 4 * max(0, more[2])
        if not any(m >= k * calls for m, k in zip(more, LEAST)):
            LASTED = n // 4
            return None
    return dict(new_bytes=SEEN[0::4].tolist(), new_blocks=SEEN[1::4].tolist(), python_bytes=SEEN[2::4].tolist(), malloc_bytes=SEEN[3::4].tolist())


def judge(ctx, what, f, calls=CALLS):
    gc.disable()
    try:
        seen = grows(f, calls)
    finally:
        gc.enable()
    if seen:
        ctx.fail("%s: held at first and after each %d calls: %s" % (what() if callable(what) else what, calls, seen))
    ctx.n("evaluations")
    ctx.n("lasted %02d" % LASTED)
    ctx.n("calls", WARM + LASTED * calls)


def wrap(name, gen, run, hook=False, every=1):
    """The cases of another check, each repeated; what that check thinks of the answers is not looked at."""
    def g():
        for i, c in enumerate(gen()):
            if i % every == 0:
                yield c

    def r(case, ctx):
        judge(ctx, lambda: "%s %s" % (name, harness.show(case)), lambda: run(case, Ctx()))
        ctx.seen("cases", (name, repr(case)))
    return Stage(name, g, r, limit=120, hook=hook)


def run_defect(case, ctx):
    shape, s, fn, i, _ = case
    p = c13.P(shape, s, fn)
    name = None
    if i is not None:
        name, f = c13.muts(shape, s, fn)[i]
        f(p)
    parts = [x for x in [p.seed, p.idx, p.ms] + (p.idx if isinstance(p.idx, list) else []) + (p.ms if isinstance(p.ms, list) else []) if isinstance(x, (np.ndarray, list))]
    before = [sys.getrefcount(x) for x in parts]
    judge(ctx, lambda: "%r (%s)" % (p, name), p.call)
    after = [sys.getrefcount(x) for x in parts]
    ctx.check(before == after, lambda: "%r (%s): references to its arguments are kept: %s, before the calls %s" % (p, name, after, before))
    ctx.seen("cases", ("defect", repr(case)))


def gen_ops():
    for n in range(len(c15.OPS)):
        yield "op", n
    for n in range(len(c15.ALIKE)):
        yield "alike", n
    for n in range(len(c15.LARGE)):
        for k in range(10):
            yield "large", (n, k)
    # generators: never started, abandoned part way
    for d in (1, 2, 40, 1111):
        for k in (0, 1, 5):
            for how in range(3):
                yield "generator", (d, k, how)


def sobol(d, k, how):
    g = H.SobolSequence(d, k) if k else H.SobolSequence(d)
    if how == 1:
        next(g)
    elif how == 2:
        for _ in range(5):
            next(g)
        iter(g)


def run_ops(case, ctx):
    kind, n = case
    if kind == "op":
        v = c15.inputs()
        parts = list(v.values())
        before = [sys.getrefcount(x) for x in parts]
        judge(ctx, c15.OPS[n][0], lambda: hl.attempt(c15.OPS[n][1], v))
        gc.collect()
        after = [sys.getrefcount(x) for x in parts]
        ctx.check(before == after, lambda: "%s: references to its arguments are kept: %s, before the calls %s" % (c15.OPS[n][0], after, before))
    elif kind == "alike":
        judge(ctx, c15.ALIKE[n][0], lambda: hl.attempt(c15.ALIKE[n][1]))
    elif kind == "large":
        f = c15.large_calls(n[0])[n[1]]
        judge(ctx, "call %d on %s" % (n[1], c15.LARGE[n[0]]), lambda: hl.attempt(f), 2)
    else:
        judge(ctx, "SobolSequence%r" % (n,), lambda: sobol(*n))
    ctx.seen("cases", case)


# ------------------------------------------------------------ R

R_LEAK = r"""
i <- %d
dyn.load("%s")
rounds <- %d
held <- function() { g <- gc(); c(.C("hlnew_get", x = double(3))$x[1:2], sum(g[, 1] * c(56, 8))) }
for (k in 1:3) for (m in 1:3) do(i)
grows <- function(f) {
  seen <- list(held(), held())
  for (k in 1:rounds) {
    for (m in 1:8) f()
    seen[[k + 2]] <- held()
    # (the results kept here are not leaked)
    more <- seen[[k + 2]] - seen[[k + 1]] - (seen[[2]] - seen[[1]])
    if (!(more[1] >= 64 || more[2] >= 8 || more[3] >= 8 * 56 + 600)) return(FALSE)
  }
  do.call(rbind, seen)
}
for (k in 1:2) grows(function() 1)
kept <- NULL
if (i == 1 && (!is.matrix(grows(function() kept <<- c(kept, runif(20)))) || is.matrix(grows(function() runif(20))))) stop("the measurement does not work")
x <- grows(function() do(i))
if (is.matrix(x)) cat("BAD", paste(apply(x[c(1, 2, 3, nrow(x)), ], 1, paste, collapse = ","), collapse = " ... "), "\n")
cat("DONE\n")
"""


def run_r(i, ctx):
    so = os.path.join(build.python_ext(), "newcount.so")
    try:
        lines = rops.script(R_LEAK % (i + 1, so, 20), env=dict(LD_PRELOAD=so))
    except rside.Died as e:
        ctx.fail("R: %s again and again: %s" % (rops.OPS[i], e.args[1]))
        return
    for l in lines:
        if l.startswith("BAD "):
            ctx.fail("R: %s, again and again: bytes and blocks of operator new and bytes of R's: %s" % (rops.OPS[i], l[4:]))
    ctx.n("evaluations")
    ctx.n("calls", 12)
    ctx.seen("cases", ("R", i))


def main(replay=None):
    global H, COUNTS
    so = os.path.join(build.python_ext(), "newcount.so")
    if os.environ.get("LD_PRELOAD") != so:
        os.execve(sys.executable, [sys.executable, os.path.join(build.VERIF, "check.py"), "C18"] + (["--replay", replay] if replay else []), dict(os.environ, LD_PRELOAD=so))
    lib = ctypes.CDLL(so)
    COUNTS = [ctypes.c_longlong.in_dll(lib, n) for n in ("hlnew_bytes", "hlnew_blocks")]
    H = hl.load()
    rside.load()
    ref.SobolRef.table()
    for m in (c01, c02, c09, c10, c11, c12, c13, c14, c15):
        m.H = H
    c15.FRESH = [None] * len(c15.OPS)
    c15.ALIKE = c15.alike()
    # the measurement sees what it is meant to see
    gc.collect()
    gc.freeze()
    tracemalloc.start()
    kept = []
    cxx = lib._Znwm
    cxx.restype = ctypes.c_void_p
    block, some = ctypes.CDLL(None).malloc, ctypes.c_size_t(24)
    block.restype = None
    for f, leaks in ((lambda: block(some), True), (lambda: cxx(ctypes.c_size_t(8)) and None, True), (lambda: kept.append(bytes(40)), True), (lambda: kept.append(np.empty(5)), True), (lambda: np.empty(40), False)):
        if bool(grows(f)) != leaks:
            raise RuntimeError("the measurement does not work")
    t = TIER == "thorough"
    stages = [
        Stage("operations", gen_ops, run_ops, limit=120),
        Stage("defects", lambda: (c for c in c13.gen() if c[4] is None), run_defect, limit=120),
        wrap("odd-arguments", c13.gen_odd, c13.run_odd, every=1 if t else 7),
        wrap("too-many-states", lambda: (c for c in c13.gen_huge() if len(c[1]) < 10000), c13.run_huge, every=1 if t else 5),
        wrap("flatten", c12.gen_bad, c12.run_bad),
        wrap("integerise", c10.gen_bad, c10.run_bad),
        wrap("integerise-nd", c11.gen_bad, c11.run_bad),
        wrap("sobol", c09.gen_args, c09.run_args),
        wrap("qis exhausted", c01.gen_exhaust, c01.run_exhaust, hook=True, every=1 if t else 5),
        wrap("qisi exhausted", c02.gen_exhaust, c02.run_exhaust, hook=True, every=1 if t else 5),
        wrap("integerise tables", c11.gen_small, c11.run, every=9 if t else 400),
        Stage("R", lambda: iter(range(len(rops.OPS))), run_r, limit=200),
        wrap("representations", c14.gen, c14.run, every=5 if t else 200),
    ]

    def summ(tt):
        return dict(evaluations=tt.counts["evaluations"], distinct_nontrivial=len(tt.sets["cases"]), calls=tt.counts["calls"], most_rounds_of_growth=max(int(k[7:]) for k in tt.counts if k.startswith("lasted")),
                    rule="an evaluation is one case, called %d times and then in rounds of %d: a leak is growth of at least one smallest allocation per call in each of %d rounds" % (WARM, CALLS, ROUNDS),
                    samples=[{"stages": [s.name for s in stages]}])

    return harness.run_check("C18", stages, "exploration", summ, replay, assumptions=[
        "a call that keeps something only every twelfth time or more rarely is not noticed"])
