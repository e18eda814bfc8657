"""C15: every call depends on its arguments alone: inputs are not touched, results are not shared, no history shows through."""
import concurrent.futures
import ctypes
import gc
import itertools
import os
import pickle
import shutil
import sys
import tempfile
import threading
import time

import numpy as np

from checks.c14 import same
from lib import build, harness, hl, ref, rops, rside, scen
from lib.harness import Stage, TIER

H = None
DEPTH = 4 if TIER == "quick" else 5


def inputs():
    """Shared by all operations, so that a call that touches its arguments, or keeps them, disturbs the others."""
    f = np.array
    return {
        "m2": f([3, 4]), "m3": f([2, 4, 1]), "m32": f([[1, 1], [2, 2], [1, 0]]), "m23": f([[1, 2, 0], [1, 2, 1]]), "mf2": f([3.0, 4.0]), "mf3": f([2.0, 4.0, 1.0]),
        "ones": np.ones((2, 3)), "seed": f([[1.0, 0.5, 2.0], [0.25, 1.0, 3.0]]), "zseed": f([[1.0, 0.0, 2.0], [0.0, 1.0, 3.0]]),
        "seed3": 1 + np.arange(12.0).reshape(2, 3, 2) % 5, "frac": f([[0.5, 1.5, 1.0], [1.5, 0.5, 0.0]]), "vec": f([0.4, 1.3, 2.3]), "pop": f([[1, 0, 2], [0, 3, 1]]),
        "bad": f([3, 5]), "neg": f([-1, 8]), "i0": [0], "i1": [1], "i01": [0, 1], "i12": [1, 2],
    }


OPS = [
    ("qis", lambda v: H.qis([v["i0"], v["i1"]], [v["m2"], v["m3"]])),
    ("qis skip", lambda v: H.qis([v["i1"], v["i0"]], [v["m3"], v["m2"]], 5)),
    ("qis 3d", lambda v: H.qis([v["i01"], v["i12"]], [v["m23"], v["m32"]])),
    ("qisi", lambda v: H.qisi(v["seed"], [v["i0"], v["i1"]], [v["m2"], v["m3"]])),
    ("qisi zeros", lambda v: H.qisi(v["zseed"], [v["i0"], v["i1"]], [v["m2"], v["m3"]], 3)),
    ("qisi 3d", lambda v: H.qisi(v["seed3"], [v["i01"], v["i12"]], [v["m23"], v["m32"]])),
    ("ipf", lambda v: H.ipf(v["seed"], [v["i0"], v["i1"]], [v["mf2"], v["mf3"]])),
    ("ipf int", lambda v: H.ipf(v["seed"], [v["i0"], v["i1"]], [v["m2"], v["m3"]])),
    ("ipf 3d", lambda v: H.ipf(v["seed3"], [v["i01"], v["i12"]], [v["m23"], v["m32"]])),
    ("integerise", lambda v: H.integerise(v["frac"])),
    ("integerise 1d", lambda v: H.integerise(v["vec"])),
    ("integerise pop", lambda v: H.integerise(v["vec"], 9)),
    ("flatten", lambda v: H.flatten(v["pop"])),
    ("sobol", lambda v: [next(s) for s in [H.SobolSequence(3, 9)] for _ in range(4)]),
    # calls that are refused, at different depths
    ("qis mismatch", lambda v: H.qis([v["i0"], v["i1"]], [v["bad"], v["m3"]])),
    ("qisi bad seed", lambda v: H.qisi(-v["seed"], [v["i0"], v["i1"]], [v["m2"], v["m3"]])),
    ("ipf negative", lambda v: H.ipf(v["seed"], [v["i0"], v["i1"]], [v["neg"], v["m3"]])),
    ("integerise refused", lambda v: H.integerise(v["frac"] * 0.9)),
    ("flatten refused", lambda v: H.flatten(v["pop"] - 1)),
    ("sobol refused", lambda v: H.SobolSequence(2000)),
    # calls that fail half way: the sequence ends after two points
    ("qis exhausted", lambda v: exhausted(lambda: H.qis([v["i0"], v["i1"]], [v["m2"], v["m3"]]))),
    ("qisi exhausted", lambda v: exhausted(lambda: H.qisi(v["seed"], [v["i0"], v["i1"]], [v["m2"], v["m3"]]))),
]


def exhausted(f):
    if not hl.hooked():
        raise RuntimeError("no hook")
    with hl.Stream(ref.SobolRef.points(1, 2, 2)):
        return f()


def do(op, v):
    kind, r = hl.attempt(op, v)
    return (kind, r) if kind == "ok" else (kind, type(r).__name__, str(r))


FRESH = None
FILLS = [0x00, 0xFF, 0x3F, 0xC1, 0x01, 0x55, 0x80, 0x7F]
NEW = None
RDIR = None
LIBC = ctypes.CDLL(None)


def dirty(n):
    """What uninitialised memory contains from now on: the environment's choice. n: which of them; None: whatever there is."""
    if NEW is not None:
        fill = -1 if n is None else FILLS[n % len(FILLS)]
        ctypes.c_int.in_dll(NEW, "hlnew_fill").value = fill
        # M_PERTURB: the same for malloc (0: not at all)
        LIBC.mallopt(-6, max(fill, 0))
        if fill >= 0:
            NEW.hlnew_stack(fill)


def alone(f):
    """The answer f() gives as the first thing a process does."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        with os.fdopen(w, "wb") as h:
            h.write(pickle.dumps(f()))
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as h:
        out = pickle.loads(h.read())
    os.waitpid(pid, 0)
    return out


def fresh():
    return [alone(lambda: do(op, inputs())) for _, op in OPS]


def scribble(x):
    """Overwrites everything a result holds."""
    if isinstance(x, np.ndarray):
        x[...] = 99
    elif isinstance(x, (list, tuple)):
        for y in x:
            scribble(y)
        if isinstance(x, list):
            del x[:]
    elif isinstance(x, dict):
        for y in x.values():
            scribble(y)


def gen():
    for p in itertools.product(range(len(OPS)), repeat=2):
        yield p


def run(prefix, ctx):
    for rest in itertools.product(range(len(OPS)), repeat=DEPTH - 2):
        sequence(prefix + rest, ctx, hold=True)
        if len(prefix + rest) == DEPTH and rest[-1] == 0:
            sequence(prefix + rest, ctx, hold=False)


def sequence(seq, ctx, hold):
    """hold: results are kept and must not change; otherwise they are overwritten and dropped straight away."""
    v = inputs()
    held = []
    names = [OPS[o][0] for o in seq]
    for n, o in enumerate(seq):
        dirty(n + o + seq[0])
        r = do(OPS[o][1], v)
        ctx.n("transitions")
        if not same(r, FRESH[o]):
            ctx.fail("after %s: %s returns %s, in a fresh process %s" % (names[:n], names[n], harness.show(r), harness.show(FRESH[o])))
        if hold:
            held.append((o, r))
        else:
            scribble(r)
            del r
    for o, r in held:
        if not same(r, FRESH[o]):
            ctx.fail("%s: the result of %s was changed by a later call: %s" % (names, OPS[o][0], harness.show(r)))
    w = inputs()
    if not same(v, w):
        ctx.fail("%s: an argument was changed: %s" % (names, [k for k in w if not same(v[k], w[k])]))
    ctx.n("sequences")


# ------------------------------------------------------------ results own their memory

def gen_own():
    for o in range(14):
        yield o


def arrays(x):
    if isinstance(x, np.ndarray):
        yield x
    elif isinstance(x, (list, tuple)):
        for y in x:
            yield from arrays(y)
    elif isinstance(x, dict):
        for y in x.values():
            yield from arrays(y)


def run_own(o, ctx):
    name, op = OPS[o]
    v = inputs()
    r1 = op(v)
    r2 = op(v)
    a1, a2, av = list(arrays(r1)), list(arrays(r2)), list(arrays(v))
    for a in a1:
        ctx.n("transitions")
        ctx.check(a.flags.writeable, lambda: "%s: a result is read-only" % name)
        for b in a2 + av + [c for c in a1 if c is not a]:
            ctx.check(not np.shares_memory(a, b), lambda: "%s: results or arguments share memory" % name)
    # arguments that go away do not take the results with them
    keep = pickle.dumps(r1)
    for a in av:
        a[...] = 3
    del v, av, r2, a2
    gc.collect()
    junk = [np.full(n, 77.0) for n in (2, 3, 4, 6, 8, 12, 24) for _ in range(50)]
    ctx.check(same(r1, pickle.loads(keep)), lambda: "%s: the result changed when the arguments went away: %s" % (name, harness.show(r1)))
    ctx.check(same(("ok", r1), FRESH[o]), lambda: "%s: %s" % (name, harness.show(r1)))
    del junk
    # read-only arguments are enough
    v = inputs()
    for a in arrays(v):
        a.flags.writeable = False
    ctx.check(same(do(op, v), FRESH[o]), lambda: "%s: differs with read-only arguments" % name)
    ctx.n("sequences")


# ------------------------------------------------------------ larger problems, called again after each other

def gen_again():
    for i, (shape, s) in enumerate(scen.LADDER):
        if np.prod(shape) < 1000 or TIER == "thorough":
            yield i


def run_again(i, ctx):
    from checks.c02 import seeds
    shape, s = scen.LADDER[i]
    L = [list(x) for x in s]
    ms = scen.margs(scen.mixed(shape, i, 2), s)
    seed = seeds(shape, i)[1][1]
    frac = ref.ipf_run(seed, [(d,) for d in range(len(shape))], scen.margs(scen.mixed(shape, i, 2), [(d,) for d in range(len(shape))]))[0]
    calls = [lambda: H.qis(L, ms), lambda: H.qisi(seed, L, ms), lambda: H.ipf(seed, L, ms), lambda: H.integerise(frac)]
    before = pickle.dumps((ms, seed, frac))
    first = [hl.attempt(c) for c in calls]
    for p in itertools.permutations(range(4)) if np.prod(shape) < 200 else [(3, 2, 1, 0), (1, 1, 0, 3)]:
        for k in p:
            got = hl.attempt(calls[k])
            ctx.n("transitions")
            if first[k][0] == "ok":
                ctx.check(same(got, first[k]), lambda: "call %d of %s %s differs the second time" % (k, shape, s))
        ctx.n("sequences")
    ctx.check(pickle.dumps((ms, seed, frac)) == before, lambda: "%s %s: an argument was changed" % (shape, s))


# ------------------------------------------------------------ results too large for a small buffer

LARGE = [((64, 64), [(0,), (1,)]), ((64, 64), [(1,), (0,)]), ((65, 63), [(0,), (1,)]), ((16, 16, 16), [(0, 1), (2,)]), ((16, 16, 16), [(2,), (1,), (0,)]), ((2,) * 12, [(d,) for d in range(12)]),
         ((100, 100), [(0,), (1,)]), ((256, 256), [(0,), (1,)]), ((257, 257), [(1,), (0,)]), ((70000, 2), [(0,), (1,)]), ((300, 300), [(0,), (1,)]), ((2, 64), [(0,), (1,)])]


def large_calls(i):
    from checks.c02 import seeds
    shape, s = LARGE[i]
    L = [list(x) for x in s]
    calls = []
    for v in range(2):
        j = scen.sparse(shape, 9, i + v)
        ms = scen.margs(j, s)
        seed = seeds(shape, i + v)[1][1]
        calls += [lambda ms=ms: H.qis(L, ms), lambda ms=ms, seed=seed: H.qisi(seed, L, ms), lambda ms=ms, seed=seed: H.ipf(seed, L, ms), lambda j=j: H.integerise(j.astype(float)), lambda j=j: H.flatten(j)]
    return calls


def gen_large():
    # the first result is held while the others are produced: every ordered pair of problems
    for i in range(len(LARGE)):
        for k in range(len(LARGE)):
            yield i, k


def run_large(case, ctx):
    i, k = case
    held = []
    for n, f in enumerate(large_calls(i) + large_calls(k)):
        kind, r = hl.attempt(f)
        if ctx.check(kind == "ok", lambda: "call %d on %s, %s: %r" % (n, LARGE[i], LARGE[k], r)):
            held.append((n, r, pickle.dumps(r)))
        ctx.n("transitions")
    for n, r, p in held:
        ctx.check(pickle.dumps(r) == p, lambda: "%s, %s: the result of call %d was changed by a later call" % (LARGE[i], LARGE[k], n))
        if i == k:
            for a in arrays(r):
                ctx.check(a.flags.writeable and not any(np.shares_memory(a, b) for _, q, _ in held for b in arrays(q) if b is not a), lambda: "%s: the result of call %d shares memory with another" % (LARGE[i], n))
    # a result that has been dropped, and its memory reused
    gc.collect()
    for n, f in enumerate(large_calls(i)[:2]):
        again = pickle.dumps(hl.attempt(f)[1])
        ctx.check(again == [p for m, _, p in held if m == n][:1][0] if held else True, lambda: "%s, %s: call %d differs the second time" % (LARGE[i], LARGE[k], n))
    ctx.n("sequences")


# ------------------------------------------------------------ calls that differ in one thing only, each straight after each other

def alike():
    """Calls that share as much as possible: totals, statistics, shapes, structures, skips, data at the same address."""
    out = []

    def add(name, f):
        out.append((name, f))

    def q(s, ms, *k):
        L = [list(x) for x in s]
        add("qis(%s, %s%s)" % (L, [m.tolist() for m in ms], "".join(", %d" % x for x in k)), lambda: H.qis(L, ms, *k))

    def qi(seed, s, ms, *k):
        L = [list(x) for x in s]
        add("qisi(%s, %s, %s%s)" % (seed.tolist(), L, [m.tolist() for m in ms], "".join(", %d" % x for x in k)), lambda: H.qisi(seed, L, ms, *k))

    def ip(seed, s, ms):
        L = [list(x) for x in s]
        add("ipf(%s, %s, %s)" % (seed.tolist(), L, [m.tolist() for m in ms]), lambda: H.ipf(seed, L, ms))

    one = [((2, 2), ((0,), (1,))), ((2, 2), ((1,), (0,))), ((2, 4), ((0,), (1,))), ((4, 2), ((0,), (1,))), ((4, 4), ((0,), (1,))), ((2, 3), ((0,), (1,))), ((3, 3), ((1,), (0,))), ((2, 2, 2), ((0,), (1,), (2,))),
           ((2, 2, 4), ((0,), (1,), (2,))), ((4, 4, 2), ((0,), (1,), (2,))), ((2, 2, 2), ((0, 1), (2,))), ((2, 2, 2), ((0, 1), (1, 2))), ((2, 2, 2), ((2, 1), (0,))), ((2, 2, 2, 2), ((0,), (1,), (2,), (3,))),
           ((8, 2), ((0,), (1,))), ((1, 4), ((0,), (1,)))]
    for n, (shape, s) in enumerate(one):
        N = int(np.prod(shape))
        for t in (1, 2):
            # the same number of people everywhere: few, and the same, values of the statistic
            q(s, scen.margs(np.full(shape, t), s))
        if 16 % N == 0 and 16 // N > 2:
            q(s, scen.margs(np.full(shape, 16 // N), s))
        d = np.zeros(shape, dtype=np.int64)
        d[(0,) * len(shape)] = 4
        d[(-1,) * len(shape)] = 4
        q(s, scen.margs(d, s))
        q(s, scen.margs(d, s), 3)
        d[(0,) * len(shape)] = 3
        q(s, scen.margs(d + 1, s))
        q(s, scen.margs(d + 1, s), 1)
        q(s, scen.margs(d + 1, s), 2)
        ms = scen.margs(d + 1, s)
        for v in range(2):
            sd = np.ones(shape)
            sd[(0,) * (len(shape) - 1) + (v % shape[-1],)] = 2
            ip(sd, s, [m * 1.0 for m in ms])
            if n < 12:
                qi(sd, s, ms)
                ip(sd * 0.5, s, [m * 1.0 for m in ms])
                ip(sd, s, [m * 0.5 for m in ms])
    qi(np.ones((2, 2)), ((0,), (1,)), [np.array([3, 4]), np.array([2, 5])], 0)
    qi(np.ones((2, 2)), ((0,), (1,)), [np.array([3, 4]), np.array([2, 5])], 5)
    qi(np.ones((2, 2)), ((0,), (1,)), [np.array([4, 3]), np.array([2, 5])], 5)
    qi(np.array([[1.0, 0], [1, 1]]), ((0,), (1,)), [np.array([3, 4]), np.array([4, 3])], 0)
    ip(np.array([[1.0, 0], [1, 1]]), ((0,), (1,)), [np.array([3.0, 4]), np.array([4.0, 3])])
    ip(np.array([[1.0, 0], [0, 1]]), ((0,), (1,)), [np.array([3.0, 4]), np.array([4.0, 3])])
    for d, k in [(1, None), (2, None), (2, 0), (2, 1), (2, 2), (2, 3), (3, 5), (3, 9), (4, 5), (40, 5), (1111, 5)]:
        add("SobolSequence(%d, %s)" % (d, k), lambda d=d, k=k: [next(g) for g in [H.SobolSequence(d) if k is None else H.SobolSequence(d, k)] for _ in range(3)])
    for f, p in [((0.4, 0.6), 5), ((0.6, 0.4), 5), ((0.4, 0.6), 6), ((0.5, 0.5), 5), ((0.2, 0.3, 0.5), 5), ((0.5, 0.3, 0.2), 5), ((1.0,), 5)]:
        add("integerise(%s, %d)" % (f, p), lambda f=f, p=p: H.integerise(np.array(f), p))
    for a in ([[0.5, 0.5], [0.5, 0.5]], [[0.5, 1.5], [1.5, 0.5]], [[1.5, 0.5], [0.5, 1.5]], [[0.25, 0.75], [0.75, 0.25]], [[0.5, 0.5, 1], [0.5, 0.5, 0]], [[[0.5, 0.5], [0.5, 0.5]]] * 2):
        add("integerise(%s)" % a, lambda a=np.array(a): H.integerise(a))
    for a in ([[1, 0], [0, 2]], [[1, 0], [2, 0]], [[0, 1], [2, 0]], [1, 0, 0, 2], [[1, 0, 0, 2]], [[[1, 0], [0, 2]]], [[0, 0], [0, 0]]):
        add("flatten(%s)" % a, lambda a=np.array(a): H.flatten(a))
    # refused ones, which differ from a good one in one thing
    q(((0,), (1,)), [np.array([2, 2]), np.array([2, 3])])
    q(((0,), (0,)), [np.array([2, 2]), np.array([2, 2])])
    q(((0,), (2,)), [np.array([2, 2]), np.array([2, 2])])
    q(((0, 1), (1, 2)), [np.array([[2, 2], [2, 2]]), np.array([[2, 2], [2, 3]])])
    ip(np.ones((2, 3)), ((0,), (1,)), [np.array([2.0, 2.0]), np.array([2.0, 2.0])])
    qi(np.zeros((2, 2)), ((0,), (1,)), [np.array([2, 2]), np.array([2, 2])])
    return out


ALIKE = None
ALIKE_FRESH = None


def again(n):
    kind, r = hl.attempt(ALIKE[n][1])
    return (kind, r) if kind == "ok" else (kind, type(r).__name__, str(r))


def gen_alike():
    yield from range(len(ALIKE))


def run_alike(a, ctx):
    for b in range(len(ALIKE)):
        for n, before in ((a, b - 1), (b, a)):
            dirty(a + b + n)
            r = again(n)
            ctx.n("transitions")
            ctx.check(same(r, ALIKE_FRESH[n]), lambda: "%s straight after %s: %s, in a fresh process %s" % (ALIKE[n][0], ALIKE[before][0], harness.show(r), harness.show(ALIKE_FRESH[n])))
        ctx.n("pairs")


# ------------------------------------------------------------ whatever uninitialised memory contains

def gen_dirty():
    for n in range(len(OPS)):
        yield "op", n
    for n in range(len(ALIKE)):
        yield "alike", n
    for n in range(len(scen.LADDER)):
        if np.prod(scen.LADDER[n][0]) < (1000 if TIER == "quick" else 10 ** 5):
            yield "ladder", n
    # every structure of small problems
    i = 0
    for shape in [(2,), (2, 3), (3, 2), (2, 3, 2), (2, 2, 2, 2)]:
        for s in scen.structures(len(shape), 3 if len(shape) < 4 else 2):
            i += 1
            if TIER != "quick" or i % (2 if len(shape) < 4 else 12) == 0:
                yield "structure", (shape, s, i)
    # nobody, or one individual
    for shape in [(2, 3), (3, 2, 2)]:
        for s in scen.structures(len(shape), 2):
            for n in (0, 1):
                yield "few", (shape, s, n)


def run_dirty(case, ctx):
    from checks.c02 import seeds
    kind, n = case
    if kind == "op":
        calls = [lambda: do(OPS[n][1], inputs())]
    elif kind == "alike":
        calls = [lambda: again(n)]
    else:
        shape, s, i = (*scen.LADDER[n], n) if kind == "ladder" else n
        L = [list(x) for x in s]
        j = scen.mixed(shape, i, 3)
        if kind == "few":
            j = np.zeros(shape, dtype=np.int64)
            j.flat[-1] = i
        ms = scen.margs(j, s)
        sd = seeds(shape, i)
        frac = j + np.where(np.indices(shape).sum(0) % 2, 0.0, 0.0)
        calls = [lambda: hl.attempt(H.qis, L, ms), lambda: hl.attempt(H.qisi, sd[1][1], L, ms), lambda: hl.attempt(H.ipf, sd[1][1], L, ms), lambda: hl.attempt(H.flatten, j), lambda: hl.attempt(H.integerise, frac)]
        if kind in ("structure", "few"):
            calls += [lambda q=q: hl.attempt(f, q[1], L, ms) for q in sd[2:] for f in (H.qisi, H.ipf)]
    for k, f in enumerate(calls):
        seen = []
        for d in range(len(FILLS) if TIER != "quick" else 4):
            dirty(d)
            r = f()
            ctx.n("transitions")
            seen.append(r if r[0] == "ok" else (r[0], str(r[1:])))
            ctx.check(same(seen[-1], seen[0]), lambda: "%s %s: call %d returns %s with memory full of %02x, %s with %02x" % (kind, n, k, harness.show(seen[-1]), FILLS[d], harness.show(seen[0]), FILLS[0]))
    dirty(None)
    ctx.n("sequences")


# ------------------------------------------------------------ in a thread of its own

def in_thread(f):
    out = []
    t = threading.Thread(target=lambda: out.append(f()))
    t.start()
    t.join()
    return out[0]


def gen_threads():
    for n in range(len(OPS)):
        yield "op", n
    for n in range(len(ALIKE)):
        yield "alike", n
    for p in itertools.product(range(3), repeat=6):
        yield "generator", p


def run_threads(case, ctx):
    kind, n = case
    if kind == "op":
        if "exhausted" in OPS[n][0]:
            return
        r, want, what = in_thread(lambda: do(OPS[n][1], inputs())), FRESH[n], OPS[n][0]
    elif kind == "alike":
        r, want, what = in_thread(lambda: again(n)), ALIKE_FRESH[n], ALIKE[n][0]
    else:
        # two generators, created and stepped by this thread, a new one, or a second one that lives on
        import queue
        ask, answer = queue.Queue(), queue.Queue()

        def serve():
            for f in iter(ask.get, None):
                answer.put(f())
        t = threading.Thread(target=serve)
        t.start()

        def step(where, f):
            if where == 0:
                return f()
            if where == 1:
                return in_thread(f)
            ask.put(f)
            return answer.get()
        g = [step(n[0], lambda: H.SobolSequence(3, 5)), step(n[1], lambda: H.SobolSequence(2))]
        r = [step(w, lambda k=k: next(g[k % 2])) for k, w in enumerate(n[2:])]
        step(n[2], lambda: H.qis([[0], [1]], [np.array([1, 2]), np.array([2, 1])]))
        r += [step(w, lambda k=k: next(g[k % 2])) for k, w in enumerate(n[::-1][:4])]
        ask.put(None)
        t.join()
        a, b = H.SobolSequence(3, 5), H.SobolSequence(2)
        want = [next((a, b)[k % 2]) for k in (0, 1, 0, 1, 0, 1, 0, 1)]
        what = "generators created and stepped by threads %s" % (n,)
    ctx.n("transitions")
    ctx.n("threads")
    ctx.check(same(r, want), lambda: "%s, in a thread of its own: %s, otherwise %s" % (what, harness.show(r), harness.show(want)))


# ------------------------------------------------------------ two threads at the same time

BIG = None


def big():
    """Calls that take some time, in pairs that only differ in their values."""
    global BIG
    if BIG is None:
        BIG = []
        for v in (0, 1):
            x = np.arange(30 * 30 * 6)
            s = (x * 7 % 11 + 1.0 + v).reshape(30, 30, 6)
            s[v::2, ::3 + v, :] = 0
            q = (x * 5 % 13 + 1).reshape(30, 30, 6) * (s > 0)
            L = [[0], [1], [2]]
            P = [[0, 1], [1, 2]]
            fm = [m * 1.7 for m in scen.margs(q.astype(float), L)]
            pm = scen.margs(q.astype(float), P)
            j = (x[:216] * (5 + v) % 3 * 8).reshape(6, 6, 6)
            im, jm = scen.margs(j, L), scen.margs(j, P)
            f = np.where((np.indices((40, 40)).sum(0) + v) % 2, 0.5, 1.5) + (np.arange(1600) * (3 + v) % 4).reshape(40, 40)
            BIG += [("ipf", v, lambda s=s, L=L, m=fm: H.ipf(s, L, m)), ("ipf over pairs", v, lambda s=s, L=P, m=pm: H.ipf(s, L, m)),
                    ("qis", v, lambda m=im, k=v: [H.qis(L, m, k) for i in range(3)]), ("qis over pairs", v, lambda m=jm: [H.qis(P, m) for i in range(3)]),
                    ("qisi", v, lambda j=j, m=im: H.qisi(j + 0.5, L, m)), ("integerise", v, lambda f=f: H.integerise(f[:16, :16])),
                    ("integerise with a population", v, lambda f=f, v=v: [H.integerise(f.ravel(), 5000 + v) for i in range(4)]),
                    ("flatten", v, lambda q=q: [[np.array(c).sum(), c[:50]] for c in H.flatten(q)]),
                    ("SobolSequence", v, lambda v=v: [next(g)[::50] for g in [H.SobolSequence(1111 - v, 1 << 12)] for i in range(200)])]
    return BIG


def gen_together():
    n = 18
    for a in range(n):
        for b in range(a, n):
            if TIER != "quick" or (a - b) % 9 == 0 or (a + b) % 3 == 0:
                yield a, b


def run_together(case, ctx):
    ops = [big()[i] for i in case]
    want = [hl.attempt(f) for _, _, f in ops]
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        for rep in range(6):
            out = [None] * 3
            gate = threading.Barrier(3)

            def work(i):
                gate.wait()
                out[i] = hl.attempt(ops[i % 2][2])
            ts = [threading.Thread(target=work, args=(i,)) for i in range(3)]
            [x.start() for x in ts]
            [x.join() for x in ts]
            ctx.n("transitions", 3)
            for i in range(3):
                ctx.check(same(out[i], want[i % 2]), lambda: "%s (%d), while other threads make it or call %s (%d): %s, otherwise %s" % (
                    ops[i % 2][0], ops[i % 2][1], ops[1 - i % 2][0], ops[1 - i % 2][1], harness.show(out[i]), harness.show(want[i % 2])))
    finally:
        sys.setswitchinterval(old)
    ctx.n("together")
    # does anything else run while a call is under way?
    if case[0] == case[1]:
        ticks, stop = [], []

        def tick():
            while not stop:
                ticks.append(time.perf_counter())
        t = threading.Thread(target=tick)
        t.start()
        try:
            t0 = time.perf_counter()
            hl.attempt(ops[0][2])
            t1 = time.perf_counter()
        finally:
            stop.append(1)
            t.join()
        gaps = [y - x for x, y in zip([t0] + ticks, ticks + [t1]) if y > t0 and x < t1]
        ctx.n("lock_held" if gaps and max(gaps) > 0.5 * (t1 - t0) else "several_calls_or_released")


# ------------------------------------------------------------ R

def fresh_r(d):
    """Files of the answers each call gives as the first of an R process, whatever that process finds in its memory."""
    def one(i):
        for fill in (0, 0x55, 0xFF):
            rops.script('saveRDS(do(%d), "%s/%d.%d")\ncat("DONE\\n")\n' % (i + 1, d, i + 1, fill), env=dict(GLIBC_TUNABLES="glibc.malloc.tcache_count=0:glibc.malloc.perturb=%d" % fill))
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        list(ex.map(one, range(len(rops.OPS))))


R_SEQ = r"""
d <- "%s"
i <- %d
n <- length(fs)
fresh <- lapply(1:n, function(i) readRDS(paste0(d, "/", i, ".0")))
same <- function(x, y) identical(x, y, num.eq = FALSE)
text <- function(x) substr(paste(deparse(x), collapse = ""), 1, 400)
for (fill in c(85, 255)) { r <- readRDS(paste0(d, "/", i, ".", fill)); if (!same(r, fresh[[i]])) cat("BAD", i, "first of a process whose memory is full of", fill, ":", text(r), "\n") }
before <- serialize(a, NULL)
bad <- 0
for (j in 1:n) for (k in 1:n) {
  r <- list(do(i), do(j), do(k))
  seq <- c(i, j, k)
  for (m in 1:3) if (!same(r[[m]], fresh[[seq[m]]])) { cat("BAD", seq[m], "step", m, "of calls", seq, ":", text(r[[m]]), "in a fresh process", text(fresh[[seq[m]]]), "\n"); bad <- bad + 1 }
  if (!identical(serialize(a, NULL), before)) { cat("BAD", i, "calls", seq, "changed their arguments\n"); bad <- bad + 1 }
  # what is done to results changes nothing else
  for (m in 1:3) if (is.list(r[[m]])) for (f in names(r[[m]])) r[[m]][[f]][] <- r[[m]][[f]][1] else r[[m]][] <- r[[m]][1]
  if (bad) break
}
cat("DONE\n")
"""


def gen_r():
    yield from range(len(rops.OPS))


def run_r(i, ctx):
    try:
        lines = rops.script(R_SEQ % (RDIR, i + 1))
    except rside.Died as e:
        ctx.fail("R: sequences beginning with %s: %s" % (rops.OPS[i], e.args[1]))
        return
    for l in lines:
        if l.startswith("BAD "):
            k = int(l.split(" ")[1]) - 1
            ctx.fail("R: %s, %s" % (rops.OPS[k], l.split(" ", 2)[2]))
    ctx.n("transitions", 3 * len(rops.OPS) ** 2)
    ctx.n("sequences", len(rops.OPS) ** 2)


def prepare():
    """For other checks that use these operations."""
    global FRESH, ALIKE, ALIKE_FRESH
    FRESH = fresh()
    ALIKE = alike()
    ALIKE_FRESH = [alone(lambda: again(n)) for n in range(len(ALIKE))]


def main(replay=None):
    global H, NEW, RDIR
    so = os.path.join(build.python_ext(), "newcount.so")
    if os.environ.get("LD_PRELOAD") != so:
        # with memory whose content can be chosen
        os.execve(sys.executable, [sys.executable, os.path.join(build.VERIF, "check.py"), "C15"] + (["--replay", replay] if replay else []), dict(os.environ, LD_PRELOAD=so, GLIBC_TUNABLES="glibc.malloc.tcache_count=0"))
    NEW = ctypes.CDLL(so)
    H = hl.load()
    prepare()
    rside.load()
    RDIR = tempfile.mkdtemp(prefix="c15r")
    try:
        fresh_r(RDIR)
        return check(replay)
    finally:
        shutil.rmtree(RDIR)


def check(replay):
    stages = [Stage("histories", gen, run, limit=300), Stage("ownership", gen_own, run_own), Stage("large-results", gen_large, run_large, limit=120), Stage("alike-pairs", gen_alike, run_alike, limit=120),
              Stage("repeats", gen_again, run_again, limit=120), Stage("uninitialised-memory", gen_dirty, run_dirty, limit=120), Stage("threads", gen_threads, run_threads, limit=60), Stage("threads-together", gen_together, run_together, limit=120),
              Stage("R: sequences", gen_r, run_r, limit=300)]

    def summ(t):
        return dict(evaluations=t.counts["sequences"], distinct_nontrivial=len(OPS) ** DEPTH, transitions=t.counts["transitions"], depth=DEPTH, alike_calls=len(ALIKE), ordered_pairs_of_alike_calls=t.counts["pairs"], pairs_of_calls_made_together=t.counts["together"], calls_that_held_the_lock=t.counts["lock_held"], operations=[o[0] for o in OPS],
                    rule="every sequence of the listed operations up to the depth, on shared arguments, each step compared with the same call as the first of a fresh process; "
                         "distinct: the sequences of full length", samples=[{"sequence": [OPS[0][0], OPS[14][0], OPS[20][0], OPS[3][0]][:DEPTH]}])

    return harness.run_check("C15", stages, "exploration", summ, replay, assumptions=["calls from several threads are serialised by the interpreter lock, which the extension holds throughout (were it to release it, the stage threads-together would sample the schedules)", "of uninitialised memory: what operator new hands out, and the stack"])
