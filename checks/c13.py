"""C13: malformed problems are refused with an exception, whatever the defect and wherever it sits; the process survives."""
import itertools
import math

import warnings

import numpy as np

from checks import common
from lib import harness, hl, ref, scen
from lib.harness import Stage, TIER

H = None
warnings.simplefilter("ignore")
NAN, INF = math.nan, math.inf

BASES = [
    ((2, 3), ((0,), (1,))),
    ((2, 2), ((1,), (0,))),
    ((3, 1), ((0,), (1,))),
    ((2, 3, 2), ((0,), (1,), (2,))),
    ((2, 3, 4), ((0, 1), (1, 2))),
    ((2, 3, 4), ((2, 1), (1, 0))),
    ((2, 3, 4), ((1,), (2, 0))),
    ((2, 3, 2), ((0, 1), (1, 2), (2, 0))),
    ((2, 2, 2), ((0, 1, 2), (1,))),
    ((2, 3, 2, 2), ((0, 1), (2, 3))),
    ((2, 3, 2, 2), ((3, 0), (1, 2, 0))),
    ((2, 2, 2, 2), ((0, 1, 2), (1, 2, 3), (0,))),
    # a dimension in three and four marginals, at every place in them
    ((2, 2, 3), ((0, 1), (2, 0), (0,))),
    ((2, 2, 3, 2), ((0, 1), (0, 2), (0, 3))),
    ((2, 2, 2, 3), ((0, 3), (3, 1), (2, 3), (3,))),
    ((2, 2, 2, 2), ((2, 1), (0, 1, 3), (1, 3))),
    # the same dimensions twice, next to each other and not, in the same order and not
    ((2, 3), ((0, 1), (0, 1))),
    ((2, 2), ((0, 1), (1, 0))),
    ((2, 3), ((0,), (0,), (1,))),
    ((2, 2), ((0,), (1,), (0,))),
    ((2, 2, 3), ((0, 1), (0, 1), (2,))),
    ((2, 2, 2), ((2,), (1, 0), (1, 0))),
    ((2, 2, 2), ((0, 2), (1,), (0, 2))),
    ((2, 2, 2), ((0, 1, 2), (0, 1, 2))),
]
FUNCS = ["ipf", "qis", "qisi"]


class P:
    """A problem under construction."""

    def __init__(self, shape, s, fn):
        self.fn = fn
        self.shape = shape
        self.j = scen.mixed(shape, 1, 4) + 1
        self.idx = [list(i) for i in s]
        self.ms = [m.astype(float) if fn == "ipf" else m for m in scen.margs(self.j, s)]
        self.seed = np.ones(shape) + 0.1 * scen.mixed(shape, 2, 3)
        self.skips = None

    def call(self):
        if self.fn == "qis":
            a = (self.idx, self.ms)
        else:
            a = (self.seed, self.idx, self.ms)
        if self.skips is not None:
            a += (self.skips,)
        return hl.attempt(getattr(H, self.fn), *a)

    def __repr__(self):
        return "%s(seed=%s, indices=%r, marginals=%s, skips=%r)" % (
            self.fn, None if self.fn == "qis" else harness.show(getattr(self.seed, "tolist", lambda: self.seed)()), self.idx,
            harness.show([getattr(m, "tolist", lambda: m)() for m in self.ms] if isinstance(self.ms, list) else self.ms), self.skips)


def mutations(shape, s, fn):
    """(name, function that damages a problem). Every one of them makes the problem meaningless."""
    K, D = len(s), len(shape)

    def m(name, f):
        return name, f

    def setter(attr, v):
        def f(p):
            setattr(p, attr, v)
        return f

    # totals that agree, but are too large for a population
    for v in (61, 62, 63):
        def big(p, v=v):
            # every marginal's total is the same multiple of 2^v, at least 2^63
            f = 1 << max(v - 2, 0)
            p.ms = [(a.astype(object) * f) for a in p.ms]
            n = sum(p.ms[0].ravel().tolist())
            p.ms = [np.array(np.vectorize(lambda x: x if fn == "ipf" else min(x, (1 << 63) - 1), otypes=[object])(a)).astype(float if fn == "ipf" else np.int64) for a in p.ms]
            assert n >= 1 << 63
        if int((scen.mixed(shape, 1, 4) + 1).sum()) << max(v - 2, 0) >= 1 << 63:
            yield m("all marginals times 2^%d" % (v - 2), big)
    # the lists
    yield m("no marginals", lambda p: (setattr(p, "idx", []), setattr(p, "ms", [])))
    yield m("indices empty", setter("idx", []))
    yield m("marginals empty", setter("ms", []))
    for v in (None, 3, "ab"):
        yield m("indices %r" % (v,), setter("idx", v))
        yield m("marginals %r" % (v,), setter("ms", v))
    for k in range(K):
        yield m("index %d missing" % k, lambda p, k=k: p.idx.pop(k))
        yield m("marginal %d missing" % k, lambda p, k=k: p.ms.pop(k))
        if K == 2:
            yield m("only marginal %d" % k, lambda p, k=k: (p.idx.pop(k), p.ms.pop(k)))
        yield m("index %d twice" % k, lambda p, k=k: p.idx.append(p.idx[k]))
        yield m("marginal %d twice" % k, lambda p, k=k: p.ms.append(p.ms[k]))
        # the index
        n = len(s[k])
        for v in (None, "ab", [None] * n, [[0] * n], [-1] * n, [1 << 62] * n):
            yield m("index %d is %r" % (k, v), lambda p, k=k, v=v: p.idx.__setitem__(k, v))
        for v in ([], s[k] + (s[k][0],), s[k] + tuple(set(range(D + 1)) - set(s[k]))[:1]):
            yield m("index %d is %r" % (k, list(v)), lambda p, k=k, v=v: p.idx.__setitem__(k, list(v)))
        if n > 1:
            yield m("index %d too short" % k, lambda p, k=k: p.idx.__setitem__(k, p.idx[k][:-1]))
        for pos in range(n):
            for v in (-1, -2, -(1 << 63), D + 1, D + 2, 1 << 20, 1 << 31, 1 << 32, (1 << 63) - 1):
                yield m("index %d[%d] = %d" % (k, pos, v), lambda p, k=k, pos=pos, v=v: p.idx[k].__setitem__(pos, v))
            # the right number, were only its low bits looked at; handed over as a list and as an array
            for b in (8, 15, 16, 31, 32, 40, 62, 63):
                for v in (s[k][pos] + (1 << b), s[k][pos] - (1 << b)):
                    yield m("index %d[%d] = %d" % (k, pos, v), lambda p, k=k, pos=pos, v=v: p.idx[k].__setitem__(pos, v))
                    if -(1 << 63) <= v < 1 << 63:
                        yield m("index %d[%d] = %d, in arrays" % (k, pos, v), lambda p, k=k, pos=pos, v=v: (p.idx[k].__setitem__(pos, v), setattr(p, "idx", [np.array(i) for i in p.idx])))
            if sum(s[k][pos] in i for i in s) == 1:
                # the dimension is not defined anywhere any more
                for v in [D]:
                    if s[k][pos] != D - 1 or True:
                        yield m("index %d[%d] = %d" % (k, pos, v), lambda p, k=k, pos=pos, v=v: p.idx[k].__setitem__(pos, v))
            for q in range(n):
                if q != pos:
                    yield m("index %d repeats a dimension" % k, lambda p, k=k, pos=pos, q=q: p.idx[k].__setitem__(pos, p.idx[k][q]))
        # the marginal
        for v in (None, "ab", "x", {}, object()):
            yield m("marginal %d is a %s" % (k, type(v).__name__), lambda p, k=k, v=v: p.ms.__setitem__(k, v))
        yield m("marginal %d is 0-d" % k, lambda p, k=k: p.ms.__setitem__(k, np.array(float(p.j.sum()) if fn == "ipf" else int(p.j.sum()))))
        yield m("marginal %d is empty" % k, lambda p, k=k: p.ms.__setitem__(k, p.ms[k][:0]))
        yield m("marginal %d has no columns" % k, lambda p, k=k: p.ms.__setitem__(k, p.ms[k][..., :0]))
        yield m("marginal %d has one dimension more" % k, lambda p, k=k: p.ms.__setitem__(k, p.ms[k][None]))
        yield m("marginal %d has one dimension more at the end" % k, lambda p, k=k: p.ms.__setitem__(k, p.ms[k][..., None]))
        if n > 1:
            yield m("marginal %d has one dimension fewer" % k, lambda p, k=k: p.ms.__setitem__(k, p.ms[k].ravel()))
        size = int(np.prod([shape[d] for d in s[k]]))
        for c in range(size):
            for v in ((-1, -1000, -(1 << 31), -(1 << 62)) if fn != "ipf" else (-1.0, -1e-3, -1e9, -INF, NAN, INF)):
                def f(p, k=k, c=c, v=v):
                    p.ms[k] = p.ms[k].copy()
                    p.ms[k].flat[c] = v
                yield m("marginal %d cell %d = %r" % (k, c, v), f)
            if size > 1:
                # negative, but the total is what it was
                def g(p, k=k, c=c):
                    a = p.ms[k].copy()
                    o = (c + 1) % a.size
                    a.flat[o] += a.flat[c] + 1
                    a.flat[c] = -1
                    p.ms[k] = a
                yield m("marginal %d cell %d = -1, same total" % (k, c), g)
            # totals differ
            for v in (1, 2, 7, 1 << 8, 1 << 16, 1 << 31, 1 << 32, 1 << 40) if fn != "ipf" else (1.0, 2.5, 1e3, 256.0, 65536.0, 2.0 ** 32):
                def h(p, k=k, c=c, v=v):
                    p.ms[k] = p.ms[k].copy()
                    p.ms[k].flat[c] += v
                yield m("marginal %d cell %d + %r" % (k, c, v), h)
            # a total that does not fit in 64 bits; and one that is what it was, were the carry dropped
            def wide(p, k=k, c=c):
                a = p.ms[k].copy()
                a.flat[c] = (1 << 63) - 1 if fn != "ipf" else 2.0 ** 63
                if a.size > 1:
                    a.flat[(c + 1) % a.size] += 1
                p.ms[k] = a
            if size > 1 or fn == "ipf":
                yield m("marginal %d cell %d = 2^63 - 1" % (k, c), wide)
            if size > 2 and fn != "ipf":
                for add in (0, 1):
                    def wrap(p, k=k, c=c, add=add):
                        a = p.ms[k].copy()
                        i, j, o = c, (c + 1) % a.size, (c + 2) % a.size
                        a.flat[o] += a.flat[i] + a.flat[j] + 2 + add
                        a.flat[i] = a.flat[j] = (1 << 63) - 1
                        p.ms[k] = a
                    yield m("marginal %d cells %d and %d = 2^63 - 1, same total mod 2^64 + %d" % (k, c, (c + 1) % size, add), wrap)
            # totals agree, but not the part of a shared dimension
            for o in range(size):
                sub = tuple(shape[d] for d in s[k])
                cc, oo = np.unravel_index(c, sub), np.unravel_index(o, sub)
                if any(sum(d in i for i in s) > 1 and cc[q] != oo[q] for q, d in enumerate(s[k])):
                    def t(p, k=k, c=c, o=o):
                        p.ms[k] = p.ms[k].copy()
                        p.ms[k].flat[c] += 1
                        p.ms[k].flat[o] -= 1
                    yield m("marginal %d: one from cell %d to %d" % (k, o, c), t)
        # a size that disagrees with the other marginals'
        for q, d in enumerate(s[k]):
            if sum(d in i for i in s) > 1:
                def z(p, k=k, q=q):
                    pad = [(0, 0)] * p.ms[k].ndim
                    pad[q] = (0, 1)
                    p.ms[k] = np.pad(p.ms[k], pad)
                yield m("marginal %d longer in dimension %d" % (k, q), z)
    if fn != "qis":
        for v in (None, "x", "ab", {}, np.array(1.0), np.zeros(()), np.ones(0), np.ones(shape)[None], np.ones(shape)[..., None], np.ones(shape)[:0], np.ones(shape)[..., :0], np.ones(int(np.prod(shape))),
                  np.ones(shape[:-1])):
            yield m("seed %s" % (getattr(v, "shape", v),), setter("seed", v))
        for d in range(D):
            for by in (1, -1):
                if shape[d] + by > 0:
                    sh = list(shape)
                    sh[d] += by
                    yield m("seed of shape %s" % sh, setter("seed", np.ones(sh)))
        if shape != shape[::-1]:
            yield m("seed transposed", setter("seed", np.ones(shape[::-1])))
        for c in range(int(np.prod(shape))):
            for v in (-1.0, -1e-9, -INF, NAN, INF):
                def f(p, c=c, v=v):
                    p.seed.flat[c] = v
                yield m("seed cell %d = %r" % (c, v), f)
    if fn != "ipf":
        for v in (-1, -2, -(1 << 31), -(1 << 63), 1 << 32, (1 << 32) + 1, 1 << 40, (1 << 63) - 1, 1 << 63, 1 << 64, 1.5, "1", None if False else [1]):
            yield m("skips %r" % (v,), setter("skips", v))


def gen():
    for shape, s in BASES:
        for fn in FUNCS:
            n = sum(1 for _ in mutations(shape, s, fn))
            # the undamaged problem is accepted
            yield shape, s, fn, None, None
            for i in range(n):
                yield shape, s, fn, i, None
    if TIER == "thorough":
        # two defects at once must not cancel out into a crash
        for shape, s in BASES[:5]:
            for fn in FUNCS:
                n = sum(1 for _ in mutations(shape, s, fn))
                for i in range(0, n, 1):
                    yield shape, s, fn, i, "all"


CACHE = {}


def muts(shape, s, fn):
    if (shape, s, fn) not in CACHE:
        CACHE[(shape, s, fn)] = list(mutations(shape, s, fn))
    return CACHE[(shape, s, fn)]


def run(case, ctx):
    shape, s, fn, i, second = case
    if i is None:
        for k in (None, 0, 3):
            p = P(shape, s, fn)
            if fn != "ipf":
                p.skips = k
            kind, got = p.call()
            ctx.n("evaluations")
            ctx.n("valid")
            ctx.check(kind == "ok", lambda: "%r, which is a good problem: %r" % (p, got))
        return
    name, f = muts(shape, s, fn)[i]
    if second is None:
        p = P(shape, s, fn)
        f(p)
        text = repr(p)
        kind, got = p.call()
        ctx.n("evaluations")
        ctx.seen("defects", (fn, name))
        ctx.check(kind == "raised", lambda: "%s, where %s, was accepted: %s" % (text, name, harness.show(got)))
        ctx.sample({"function": fn, "indices": s, "defect": name, "answer": repr(got)})
    else:
        for name2, f2 in muts(shape, s, fn):
            p = P(shape, s, fn)
            try:
                f(p)
                f2(p)
            except Exception:
                continue        # the second defect has nothing to attach to
            p.call()            # any answer will do; none at all will not
            ctx.n("evaluations")
            ctx.n("pairs")


# ------------------------------------------------------------ single arguments of every wrong type, for every function

ODD = [None, 0, 1, -1, 1 << 70, 1.5, NAN, "", "abc", b"x", [], [[]], [[], []], {}, (), object(), [None], [[None]], ["a"], np.array(["a", "b"]), np.array([None, 1], dtype=object),
       np.ones(3, dtype=complex), np.zeros((0, 3)), np.zeros((3, 0, 2)), np.array(3.0), np.ones(3), np.ones((2, 3)), np.ones((1,) * 20), range(3), lambda: 0, [1, [2, 3]]]


def gen_odd():
    for fn, n in [("flatten", 1), ("integerise", 1), ("integerise", 2), ("ipf", 3), ("qis", 2), ("qis", 3), ("qisi", 3), ("qisi", 4), ("SobolSequence", 1), ("SobolSequence", 2)]:
        for c in itertools.product(range(len(ODD)), repeat=min(n, 2)):
            for pos in itertools.combinations(range(n), len(c)):
                yield fn, n, pos, c


GOOD = {"flatten": [np.ones((2, 2), dtype=int)], "integerise": [np.ones((2, 2)), 3], "ipf": [np.ones((2, 2)), [[0], [1]], [np.ones(2), np.ones(2)]],
        "qis": [[[0], [1]], [np.array([1, 2]), np.array([2, 1])], 3], "qisi": [np.ones((2, 2)), [[0], [1]], [np.array([1, 2]), np.array([2, 1])], 3], "SobolSequence": [2, 3]}


def run_odd(case, ctx):
    fn, n, pos, c = case
    a = list(GOOD[fn][:n])
    for p, i in zip(pos, c):
        a[p] = ODD[i]
    # whatever it answers, it answers, and the next call is not affected
    hl.attempt(getattr(H, fn), *a)
    ctx.n("evaluations")
    ctx.n("odd")
    r, st = H.qis(*GOOD["qis"][:2])
    ctx.check(st["conv"] and int(r.sum()) == 3, lambda: "qis after %s%r" % (fn, tuple(a)))


# ------------------------------------------------------------ problems too large to be held

def gen_huge():
    for fn in FUNCS:
        for bits in list(range(60, 70)) + [96, 127, 128, 129, 192]:
            for per in (3, 8, 13, 16, 20):
                n = -(-bits // per)
                if n >= 2:
                    yield fn, [per] * (n - 1) + [bits - per * (n - 1)], 1
                    if n >= 3:
                        yield fn, [per] * (n - 1) + [bits - per * (n - 1)], 2
        # sizes that are no powers of two
        for sizes in [(65537,) * 4, (65535,) * 4, (65537,) * 5, (3,) * 41, (3,) * 50, (10,) * 19, (10,) * 20, (1000003,) * 4, (641, 6700417, 641, 6700417)]:
            yield fn, list(sizes), 0
        # more dimensions than an array, or the quasirandom sequence, can have
        for D in (65, 66, 100, 128, 256, 300, 1111, 1112, 1113, 4096, 65536, 65537):
            yield fn, [1] * D, 0
            yield fn, [1] * (D - 1) + [3], 0


def run_huge(case, ctx):
    fn, sizes, chain = case
    if chain:
        sizes = [1 << b for b in sizes]
    marg = []
    if chain == 2:
        # overlapping pairs of dimensions, where that is small enough
        k = len(sizes)
        idx, d = [], 0
        while d < k:
            if d + 1 < k and sizes[d] * sizes[d + 1] <= 1 << 20:
                idx.append([d, d + 1])
                d += 1 if d + 2 < k else 2
            else:
                idx.append([d])
                d += 1
    else:
        idx = [[d] for d in range(len(sizes))]
    for i in idx:
        m = np.zeros([sizes[d] for d in i], dtype=float if fn == "ipf" else int)
        m.flat[0] = 3
        marg.append(m)
    a = (idx, marg) if fn == "qis" else (np.ones((2,) * min(len(sizes), 20)), idx, marg)
    kind, got = hl.attempt(getattr(H, fn), *a)
    ctx.n("evaluations")
    ctx.seen("defects", (fn, tuple(sizes), chain))
    ctx.check(kind == "raised", lambda: "%s with %s states was accepted" % (fn, "*".join(map(str, sizes))))


def main(replay=None):
    global H
    H = hl.load()
    stages = [Stage("defects", gen, run, limit=60 if TIER == "quick" else 600), Stage("odd-arguments", gen_odd, run_odd, limit=60),
              Stage("too-many-states", gen_huge, run_huge, limit=60)]

    def summ(t):
        return dict(evaluations=t.counts["evaluations"], distinct_nontrivial=len(t.sets["defects"]), pairs_of_defects=t.counts["pairs"], odd_arguments=t.counts["odd"], valid=t.counts["valid"],
                    rule="every listed defect at every position of every base problem, for each function that takes it; non-trivial: a distinct (function, defect, position). "
                         "A worker process that dies or does not answer counts as a violation",
                    samples=t.samples[:6])

    return harness.run_check("C13", stages, "exploration", summ, replay, assumptions=["twenty-four base problems of two to four dimensions; one defect at a time (thorough: all pairs on five of them)"])
