"""C14: how an input is represented (dtype, memory layout, container, strides, byte order) does not change the answer."""
import itertools
import warnings

import numpy as np

from lib import harness, hl, ref, scen
from lib.harness import Stage, TIER

H = None


class Like:
    """Only the array protocol."""

    def __init__(self, a):
        self.a = a

    def __array__(self, dtype=None, copy=None):
        return self.a if dtype is None else self.a.astype(dtype)


def strided(a, step=2):
    b = np.full([n * step + 1 for n in a.shape], 77, dtype=a.dtype)
    v = b[tuple(slice(1, None, step) for _ in a.shape)]
    v[...] = a
    return v


def offset(a):
    b = np.full([n + 3 for n in a.shape], 55, dtype=a.dtype)
    v = b[tuple(slice(2, 2 + n) for n in a.shape)]
    v[...] = a
    return v


def backwards(a, axes=None):
    sl = tuple(slice(None, None, -1) if axes is None or d in axes else slice(None) for d in range(a.ndim))
    return np.ascontiguousarray(a[sl])[sl]


def permuted(a, p):
    """Same values, with the storage laid out in the order of dimensions p."""
    b = np.ascontiguousarray(np.transpose(a, p))
    return np.transpose(b, np.argsort(p))


def readonly(a):
    b = a.copy()
    b.flags.writeable = False
    return b


def unaligned(a):
    raw = np.zeros(a.nbytes + 1, dtype=np.uint8)
    v = raw[1:].view(a.dtype).reshape(a.shape)
    v[...] = a
    return v


def field(a):
    r = np.zeros(a.shape, dtype=[("x", "i4"), ("v", a.dtype), ("y", "i1")])
    r["v"] = a
    return r["v"]


def nested(a, outer, inner):
    def rec(b):
        if b.ndim == 0:
            return b.item()
        return (outer if b.ndim > 1 else inner)(rec(c) for c in b)
    return rec(a)


def layouts(nd):
    yield "C", lambda a: np.ascontiguousarray(a)
    yield "F", lambda a: np.asfortranarray(a)
    for p in itertools.permutations(range(nd)):
        if 2 < nd < 5 and p != tuple(range(nd)) and p != tuple(range(nd))[::-1]:
            yield "stored as %s" % (p,), lambda a, p=p: permuted(a, p)
    yield "strided", strided
    yield "strided by 3", lambda a: strided(a, 3)
    yield "part of a larger array", offset
    yield "backwards", backwards
    for d in range(nd):
        if nd > 1:
            yield "backwards in %d" % d, lambda a, d=d: backwards(a, (d,))
    yield "strided F", lambda a: strided(np.asfortranarray(a).T).T
    yield "read-only", readonly
    yield "unaligned", unaligned
    yield "field of a record", field


def constant_in(a, axes):
    return all(bool((a == np.take(a, [0], axis=d)).all()) for d in axes)


def broadcasts(a):
    """Layouts only arrays with repetitions can have: steps of zero, overlapping windows, any step where there is one category."""
    free = [d for d in range(a.ndim) if a.shape[d] > 1 and constant_in(a, (d,))]
    for n in range(1, len(free) + 1):
        for axes in itertools.combinations(free, n):
            if constant_in(a, axes):
                yield "broadcast in %s" % (axes,), lambda a, axes=axes: np.broadcast_to(a[tuple(slice(0, 1) if d in axes else slice(None) for d in range(a.ndim))], a.shape)
    if 1 in a.shape:
        for step in (0, 8, -8, 56):
            yield "step %d where there is one category" % step, lambda a, step=step: np.lib.stride_tricks.as_strided(a, a.shape, [step if n == 1 else t for n, t in zip(a.shape, np.ascontiguousarray(a).strides)])
    if a.ndim == 2 and all(a[i, j] == a[i - 1, j + 1] for i in range(1, a.shape[0]) for j in range(a.shape[1] - 1)):
        yield "overlapping windows", lambda a: np.lib.stride_tricks.sliding_window_view(np.concatenate([a[:, 0], a[-1, 1:]]), a.shape[1])


INTS = ["i8", "i4", "i2", "i1", "u8", "u4", "u2", "u1", ">i8", ">i4", ">i2", "<i8", "f8", "f4", ">f8", "f2"]
FLOATS = ["f8", ">f8", "<f8"]      # that hold the value exactly, whatever it is
CONTAINERS = [
    ("list", lambda a: nested(a, list, list)),
    ("tuple", lambda a: nested(a, tuple, tuple)),
    ("list of tuples", lambda a: nested(a, list, tuple)),
    ("tuple of lists", lambda a: nested(a, tuple, list)),
    ("list of arrays", lambda a: list(a) if a.ndim > 1 else a.tolist()),
    ("list of scalars", lambda a: list(a) if a.ndim == 1 else a.tolist()),
    ("array protocol", Like),
    ("memoryview", lambda a: memoryview(np.ascontiguousarray(a))),
    ("object array", lambda a: a.astype(object)),
    ("subclass", lambda a: np.ascontiguousarray(a).view(type("Sub", (np.ndarray,), {}))),
    ("masked", lambda a: np.ma.array(a)),
]


def variants(a):
    """(name, same values in another representation)"""
    whole = bool((a == np.round(a)).all())
    small = bool((np.abs(a) < 120).all())
    for t in (INTS if whole and small else FLOATS if a.dtype.kind == "f" else ["i8", ">i8", "f8"]):
        yield t, a.astype(t)
    if whole and bool(((a == 0) | (a == 1)).all()):
        yield "bool", a.astype(bool)
    for n, f in layouts(a.ndim):
        yield n, f(a)
        if whole and small:
            yield n + " i4", f(a.astype("i4"))
            yield n + " f4", f(a.astype("f4"))
            yield n + " f8", f(a.astype("f8"))
            yield n + " >i8", f(a.astype(">i8"))
    for n, f in broadcasts(a):
        yield n, f(np.ascontiguousarray(a))
    if whole and not small and bool((a >= 0).all()):
        for t, top in (("u1", 255), ("i2", 32767), ("u2", 65535), (">u2", 65535), ("i4", 2 ** 31 - 1), ("u4", 2 ** 32 - 1), (">i4", 2 ** 31 - 1), ("u8", 2 ** 53), ("f4", 2 ** 24)):
            if a.max() <= top:
                yield t, a.astype(t)
                yield "F " + t, np.asfortranarray(a.astype(t))
                yield "strided " + t, strided(a.astype(t))
    if a.size > 3000:
        for n, f in CONTAINERS[:1] + CONTAINERS[-3:]:
            yield n, f(a)
        return
    for n, f in CONTAINERS:
        yield n, f(a)


def index_variants(i):
    a = np.array(i)
    yield "tuple", tuple(i)
    yield "list of numpy ints", [np.int32(v) for v in i]
    for t in ("i8", "i4", "i2", "i1", "u1", "u8", ">i8"):
        yield t, a.astype(t)
    yield "strided", strided(a)
    yield "backwards", backwards(a)
    yield "read-only", readonly(a)
    if list(i) == list(range(i[0], i[0] + len(i))):
        yield "range", range(i[0], i[0] + len(i))


def problems():
    """(function, positional array arguments by path). A path says where in the argument list the array goes."""
    for shape, s in [((2, 3), [(0,), (1,)]), ((3, 2), [(1,), (0,)]), ((2, 3, 4), [(0, 1), (1, 2)]), ((2, 3, 4), [(2, 0), (1, 0)]), ((3, 4, 2), [(2,), (0, 1)]),
                     ((2, 3, 4), [(2, 1, 0), (1,)]), ((2, 3, 2, 3), [(0, 2, 1), (3, 2)])]:
        j = scen.mixed(shape, 2, 6) + 1
        ms = scen.margs(j, s)
        seed = 1.0 + scen.mixed(shape, 5, 5)
        frac = seed / 3.0
        idx = [list(i) for i in s]
        yield "qis", [idx, ms]
        yield "qisi", [seed, idx, ms]
        yield "qisi", [frac, idx, ms]
        yield "ipf", [seed, idx, [m.astype(float) for m in ms]]
        yield "ipf", [frac, idx, [m * 0.37 for m in ms]]
        yield "flatten", [j]
        x, _, _, _ = ref.ipf_run(seed, [(d,) for d in range(len(shape))], scen.margs(j, [(d,) for d in range(len(shape))]))
        yield "integerise", [x]
        yield "integerise", [j.astype(float)]
    # with repetitions
    for shape, s in [((2, 3), [(0,), (1,)]), ((3, 2, 2), [(0, 1), (2, 1)]), ((1, 4), [(0,), (1,)]), ((3, 1, 2), [(1, 0), (1, 2)])]:
        j = np.full(shape, 3)
        idx = [list(i) for i in s]
        ms = scen.margs(j, s)
        yield "qis", [idx, ms]
        yield "qisi", [np.ones(shape), idx, ms]
        rows = np.ones(shape) * np.arange(1, shape[0] + 1).reshape((-1,) + (1,) * (len(shape) - 1))
        cols = np.ones(shape) * np.arange(1, shape[-1] + 1)
        yield "qisi", [cols, idx, ms]
        yield "ipf", [rows, idx, [m * 0.5 for m in ms]]
        yield "ipf", [cols, idx, [m * 1.0 for m in ms]]
        yield "flatten", [j]
        yield "flatten", [cols.astype(int)]
        yield "integerise", [rows]
    hankel = np.array([[1 + (i + k) % 3 for k in range(4)] for i in range(3)])
    yield "flatten", [hankel]
    yield "ipf", [hankel.astype(float), [[0], [1]], [m * 1.5 for m in scen.margs(hankel, [(0,), (1,)])]]
    yield "qisi", [hankel.astype(float), [[0], [1]], scen.margs(hankel, [(0,), (1,)])]
    for v in ([1, 2, 3, 4], [0, 1, 0], [5], [1, 0, 0, 1, 1]):
        a = np.array(v)
        yield "flatten", [a]
        yield "integerise", [a.astype(float)]
        yield "integerise", [a.astype(float), 7]
        yield "integerise", [a / 3.0, 11]


def larger():
    """The same with more cells or larger values, each argument on its own."""
    for shape, s, hi in [((60, 80), [(0,), (1,)], 2), ((5, 1000), [(1,), (0,)], 2), ((17, 16, 15), [(0, 1), (2, 1)], 3), ((3, 4), [(0,), (1,)], 300), ((2, 2, 2), [(0, 1), (1, 2)], 9000),
                         ((2,) * 7, [(d,) for d in range(7)], 20)]:
        j = scen.mixed(shape, 2, hi) + 1
        ms = scen.margs(j, s)
        seed = 1.0 + scen.mixed(shape, 5, 5)
        idx = [list(i) for i in s]
        yield "qis", [idx, ms]
        if j.sum() < 30000 and j.size < 1000:
            yield "qisi", [seed, idx, ms]
        yield "ipf", [seed, idx, [m.astype(float) for m in ms]]
        yield "ipf", [seed / 3.0, idx, [m * 0.37 for m in ms]]
        yield "flatten", [j]
        if j.size < 1000:
            yield "integerise", [j.astype(float)]
    big = np.array([[1, 70000, 3], [2 ** 31 - 1, 2 ** 31 + 7, 2 ** 40]]) * 1.0
    yield "ipf", [big, [[0], [1]], [np.array([10.0, 2.0 ** 20]), np.array([100.0, 10.0, 2.0 ** 20 - 100])]]
    yield "ipf", [np.ones((2, 3)), [[0], [1]], [big.sum(1), big.sum(0)]]
    for n in (300, 5000):
        a = scen.mixed((n,), 3, 9)
        yield "flatten", [a]
        yield "integerise", [a.astype(float)]
        yield "integerise", [a / 7.0, 1234]
    yield "integerise", [np.array([2.0 ** 30, 1.0, 70000.0])]
    yield "integerise", [np.array([2.0 ** 40, 1.0, 2.0 ** 32 + 1]), 100000]


def gen_larger():
    for n, (fn, args) in enumerate(larger()):
        for path, kind in paths(args):
            for i in range(len(alternatives(args, path, kind))):
                yield -1 - n, ((path, kind, i),)


# ------------------------------------------------------------ values that the conversion changes

def changed(a):
    """(name, an array whose conversion gives a)"""
    if a.dtype.kind == "i":
        yield "fractions", a + 0.25
        yield "fractions f4", (a + 0.75).astype("f4")
        yield "fractions >f8", (a + 0.5).astype(">f8")
        yield "long double", (a + np.longdouble(0.9))
        yield "text", a.astype(str)
    else:
        yield "long double", a.astype(np.longdouble) * (1 + np.finfo(np.longdouble).eps)
        yield "text", np.array([repr(float(v)) for v in a.ravel()]).reshape(a.shape)
        yield "complex", a + 3j
    yield "bytes", np.array([repr(v.item()).encode() for v in a.ravel()]).reshape(a.shape)


def gen_changed():
    for n, (fn, args) in enumerate(problems()):
        for path, kind in paths(args):
            if kind == "array":
                for i, (name, v) in enumerate(changed(get(args, path))):
                    yield n, path, i


def run_changed(case, ctx):
    """Refused, or the answer for the converted values, whatever the layout."""
    n, path, i = case
    fn, args = list(problems())[n]
    name, v = list(changed(get(args, path)))[i]
    kind, want = hl.attempt(getattr(H, fn), *args)
    if not ctx.check(kind == "ok", lambda: "%s%s: %r" % (fn, harness.show(args), want)):
        return
    kinds = set()
    for lay, f in list(layouts(v.ndim)) + [("list", lambda a: a.tolist())]:
        if lay == "list" and name.startswith(("long", "fractions f4", "text", "bytes")) or lay == "field of a record" and name in ("text", "bytes"):
            continue
        try:
            x = f(v)
        except (TypeError, ValueError):
            continue
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            kind, got = hl.attempt(getattr(H, fn), *put(args, path, x))
        ctx.n("evaluations")
        ctx.n("refused", kind != "ok")
        if lay != "list":
            kinds.add(kind)
        ctx.check(kind != "ok" or same(want, got), lambda: "%s%s with argument %s as %s, %s: %s, for the converted values it is %s" % (
            fn, harness.show(args), path, name, lay, harness.show(got), harness.show(want)))
    ctx.check(len(kinds) == 1, lambda: "%s%s with argument %s as %s is refused in some layouts only" % (fn, harness.show(args), path, name))
    ctx.seen("nontrivial", ("changed", n, path, i))


# ------------------------------------------------------------ whole numbers that are not Python ints

class Indexed:
    def __init__(self, v):
        self.v = v

    def __index__(self):
        return self.v

    def __int__(self):
        return self.v


SCALARS = [("int subclass", lambda v: type("I", (int,), {})(v))] + [(t.__name__, t) for t in (np.int8, np.int16, np.int32, np.int64, np.uint8, np.uint16, np.uint32, np.uint64)] \
    + [("0-d array", lambda v: np.array(v)), ("__index__", Indexed)] + [("bool", bool), ("numpy bool", np.bool_)]


def scalar_calls(v):
    ms = [np.array([3, 2]), np.array([1, 4])]
    yield "qis", lambda x: H.qis([[0], [1]], ms, x)
    yield "qis keyword", lambda x: H.qis(indices=[[0], [1]], marginals=ms, skips=x)
    yield "qisi", lambda x: H.qisi(np.array([[1.0, 2], [3, 4]]), [[0], [1]], ms, x)
    yield "integerise", lambda x: H.integerise(np.array([0.3, 0.5, 0.2]), x)
    yield "integerise keyword", lambda x: H.integerise(pop=x, frac=np.array([0.3, 0.5, 0.2]))
    if v:
        yield "dimension", lambda x: [next(g) for g in [H.SobolSequence(x)] for _ in range(5)]
    yield "skips", lambda x: [next(g) for g in [H.SobolSequence(3, x)] for _ in range(5)]
    yield "skips keyword", lambda x: [next(g) for g in [H.SobolSequence(dim=2, skips=x)] for _ in range(5)]


def gen_scalars():
    for v in (0, 1, 2, 7, 100):
        for k in range(len(list(scalar_calls(v)))):
            yield v, k


def run_scalars(case, ctx):
    v, k = case
    name, f = list(scalar_calls(v))[k]
    kind, want = hl.attempt(f, v)
    ctx.check(kind == "ok", lambda: "%s with %d: %r" % (name, v, want))
    for t, make in SCALARS:
        if "bool" in t and v > 1:
            continue
        kind, got = hl.attempt(f, make(v))
        ctx.n("evaluations")
        ctx.n("refused", kind != "ok")
        ctx.seen("nontrivial", ("scalar", v, k, t))
        ctx.check(same(want, got) if kind == "ok" else isinstance(got, TypeError), lambda: "%s with %d as %s: %s, should be %s" % (name, v, t, harness.show(got), harness.show(want)))
        ctx.check(kind == "ok" or t not in ("int subclass",), lambda: "%s with %d as %s: %r" % (name, v, t, got))


def paths(args):
    for p, a in enumerate(args):
        if isinstance(a, np.ndarray):
            yield (p,), "array"
        elif isinstance(a, list):
            for q, b in enumerate(a):
                yield (p, q), "array" if isinstance(b, np.ndarray) else "index"


def get(args, path):
    for k in path:
        args = args[k]
    return args


def put(args, path, v):
    args = [list(a) if isinstance(a, list) else a for a in args]
    if len(path) == 1:
        args[path[0]] = v
    else:
        args[path[0]][path[1]] = v
    return args


def alternatives(args, path, kind):
    v = get(args, path)
    return list(variants(v) if kind == "array" else index_variants(v))


def gen():
    for n, (fn, args) in enumerate(problems()):
        ps = list(paths(args))
        for path, kind in ps:
            for i in range(len(alternatives(args, path, kind))):
                yield n, ((path, kind, i),)
        # two arguments at once
        step = 1 if TIER == "thorough" else 7
        c = 0
        for (p1, k1), (p2, k2) in itertools.combinations(ps, 2):
            for i in range(len(alternatives(args, p1, k1))):
                for j in range(len(alternatives(args, p2, k2))):
                    c += 1
                    if c % step == 0:
                        yield n, ((p1, k1, i), (p2, k2, j))


def same(x, y):
    if isinstance(x, (tuple, list)):
        return type(x) is type(y) and len(x) == len(y) and all(same(a, b) for a, b in zip(x, y))
    if isinstance(x, dict):
        return isinstance(y, dict) and x.keys() == y.keys() and all(same(x[k], y[k]) for k in x)
    if isinstance(x, np.ndarray):
        return isinstance(y, np.ndarray) and x.dtype == y.dtype and x.shape == y.shape and np.array_equal(x, y, equal_nan=x.dtype.kind == "f")
    if isinstance(x, float):
        return type(x) is type(y) and (x == y or (x != x and y != y))
    return type(x) is type(y) and x == y


PROBLEMS = None
ALT = {}


def run(case, ctx):
    global PROBLEMS
    if PROBLEMS is None:
        PROBLEMS = list(problems())
        PROBLEMS += list(larger())[::-1]
    n, changes = case
    fn, args = PROBLEMS[n]
    if n not in ALT:
        ALT[n] = {"base": hl.attempt(getattr(H, fn), *args)}
    kind, want = ALT[n]["base"]
    if not ctx.check(kind == "ok", lambda: "%s%s: %r" % (fn, harness.show(args), want)):
        return
    a = args
    names = []
    for path, k, i in changes:
        if (path, i) not in ALT[n]:
            ALT[n][(path, i)] = alternatives(args, path, k)[i]
        name, v = ALT[n][(path, i)]
        names.append("argument %s as %s" % (path, name))
        a = put(a, path, v)
        ctx.seen("representations", (k, name))
    kind, got = hl.attempt(getattr(H, fn), *a)
    ctx.n("evaluations")
    ctx.seen("nontrivial", (n, tuple((p, i) for p, k, i in changes)))
    ctx.check(kind == "ok" and same(want, got), lambda: "%s%s with %s: %s, should be %s" % (fn, harness.show(args), " and ".join(names), harness.show(got), harness.show(want)))
    ctx.sample({"function": fn, "changes": names})


def main(replay=None):
    global H
    H = hl.load()
    stages = [Stage("representations", gen, run), Stage("larger", gen_larger, run, limit=120), Stage("values-changed", gen_changed, run_changed), Stage("scalars", gen_scalars, run_scalars)]

    def summ(t):
        return dict(evaluations=t.counts["evaluations"], distinct_nontrivial=len(t.sets["nontrivial"]), representations=len(t.sets["representations"]),
                    rule="each array argument of each base problem in each representation, then two arguments at once (quick: every seventh pair); larger problems; conversions that change values; "
                         "whole numbers of other types; non-trivial: a distinct choice of representations",
                    refused=t.counts["refused"], samples=t.samples[:6])

    return harness.run_check("C14", stages, "exploration", summ, replay, assumptions=["the values are exactly representable in the other type"])
