"""C16: the R functions give, in R's own array layout, what the Python functions give for the mirrored problem."""
import itertools
import math

import numpy as np

from checks import common
from checks.c02 import seeds
from lib import harness, hl, ref, rside, scen
from lib.harness import Stage, TIER

H = None
BATCH = 60


# A case is a batch of items; an item is (kind, arguments). Everything is in R's terms except that dimensions count from 0.

def problems():
    thorough = TIER == "thorough"
    for n, s in enumerate(itertools.chain(scen.structures(2, 2), scen.structures(2, 3))):
        for i, j in enumerate([scen.mixed((2, 3), 1), scen.mixed((3, 2), 2, 9, 3), scen.mixed((1, 3), 4, 7)]):
            yield s, j, seeds(j.shape, n % 7)[(n + i) % 6], (0, 1, 3, 100)[(n + i) % 4]
    for n, s in enumerate(itertools.chain(scen.structures(3, 2), scen.structures(3, 3))):
        if thorough or len(s) == 2 or n % 5 == 0:
            j = [scen.mixed((2, 3, 4), 1, 2), scen.mixed((3, 2, 2), 2, 6, 3)][n % 2]
            yield s, j, seeds(j.shape, n % 11)[n % 5], (0, 1, 5, 70)[n % 4]
    for n, s in enumerate(scen.structures(4, 2)):
        if n % (5 if thorough else 41) == 0:
            j = scen.mixed((2, 3, 2, 3), n % 7, 2)
            yield s, j, seeds(j.shape, n % 11)[1], (0, 5)[n % 2]
    for i, (shape, s) in enumerate(scen.LADDER):
        n = int(np.prod(shape))
        for hi, zeros in [(1, 0), (4, 3), (30, 0)]:
            if n * hi <= (20000 if thorough else 3000):
                yield s, scen.mixed(shape, i, hi, zeros), seeds(shape, i)[1], (0, 9)[hi % 2]
    for i, (shape, s) in enumerate(scen.EXTREME):
        if np.prod(shape) < 200000 and len(s) < 60 or thorough:
            yield s, scen.sparse(shape, 12, i), seeds(shape, i)[1], (0, 9)[i % 2]


def items():
    for s, j, (name, seed), k in problems():
        ms = scen.margs(j, s)
        if j.sum() < 4000:
            yield "qis", (s, ms, k)
        if j.sum() < 800 and j.size < 5000:
            yield "qisi", (seed, s, ms, k)
        yield "ipf", (seed, s, ms)
        # marginals that are no whole numbers, nor single-precision ones
        if j.size >= 5000:
            yield "flatten", j
            continue
        yield "ipf", (seed / 7.0, s, [m / (3.0, 10.0, 1e5)[j.size % 3] for m in ms])
        x, conv, _, _ = ref.ipf_run(seed, [(d,) for d in range(j.ndim)], scen.margs(j, [(d,) for d in range(j.ndim)]))
        if conv and j.sum() < 800:
            yield "integerise", x
        if j.sum() < 2000:
            yield "flatten", j
    for a in scen.all_arrays((2, 2), range(3)):
        yield "flatten", a
    for a in scen.all_arrays((2, 3), range(2)):
        yield "flatten", a
    for a in ([0, 0, 0], [3], [1, 2, 0, 4]):
        yield "flatten", np.array(a)
    # prob2IntFreq: every small vector of weights whose normalisation adds up
    for n in (1, 2, 3, 4) if TIER == "quick" else (1, 2, 3, 4, 5):
        for c, w in enumerate(itertools.product(range(4), repeat=n)):
            if sum(w) and abs(sum(v / sum(w) for v in w) - 1) < 1e-13:
                for pop in ((0, 1, 2, 5, 7, 11) if n < 4 or TIER == "thorough" else [(3, 7, 10)[c % 3]]):
                    yield "prob2IntFreq", (np.array(w) / sum(w), pop)
    for n in (10, 100, 1000):
        p = scen.mixed((n,), n, 1000)
        yield "prob2IntFreq", (p / p.sum(), 10 ** 6 + 7)
    for d in list(range(1, 8)) + [50, 333, 1111]:
        for k in (None, 0, 1, 2, 3, 4, 5, 8, 9, 100, 1024, 1025) + (((1 << 20) + 1, 1 << 24) if d < 3 else ()):
            for n in (0, 1, 5, 17) if d < 100 else (3,):
                yield "sobolSequence", (d, n, k)
    for d, n, k in [(1, 4097, 0), (1, 70001, 5), (2, 33000, None), (2, 65600, 1), (3, 11000, 1024)]:
        yield "sobolSequence", (d, n, k)
    for m in (300, 3000, 40000, 70000):
        # many people: tables longer than 2^15 and 2^16
        j = scen.mixed((3, 2), m, 9, 3) + 1
        yield "flatten", j * (m // int(j.sum())) + j
    for k in ((1 << 30) + 1, (1 << 31) - 1):
        yield "sobolSequence", (1, 3, k)


def gen():
    it = items()
    # dealt out so that every batch has a bit of everything
    every = list(it)
    nb = -(-len(every) // BATCH)
    for b in range(nb):
        yield every[b::nb]


def expr(kind, a):
    if kind == "qis":
        s, ms, k = a
        return "qis(%s,%s%s)" % (rside.lst(rside.vec(d + 1 for d in i) for i in s), rside.lst(map(rside.arr, ms)), ",%d" % k if k else "")
    if kind == "qisi":
        seed, s, ms, k = a
        return "qisi(%s,%s,%s%s)" % (rside.arr(seed), rside.lst(rside.vec(d + 1 for d in i) for i in s), rside.lst(map(rside.arr, ms)), ",%d" % k if k else "")
    if kind == "ipf":
        seed, s, ms = a
        return "ipf(%s,%s,%s)" % (rside.arr(seed), rside.lst(rside.vec(d + 1 for d in i) for i in s), rside.lst(map(rside.arr, ms)))
    if kind == "integerise":
        return "integerise(%s)" % rside.arr(a)
    if kind == "flatten":
        return "flatten(%s,c(%s))" % (rside.arr(a), ",".join('"c%d"' % d for d in range(a.ndim)))
    if kind == "prob2IntFreq":
        return "prob2IntFreq(%s,%d)" % (rside.arr(a[0]), a[1])
    if kind == "sobolSequence":
        return "sobolSequence(%d,%d%s)" % (a[0], a[1], "" if a[2] is None else ",%d" % a[2])
    raise ValueError(kind)


def mirror(s, ms, D):
    return [[D - 1 - d for d in i] for i in reversed(s)], list(reversed(ms))


def close(x, y, tol=1e-9):
    return (math.isnan(x) and math.isnan(y)) or x == y or abs(x - y) <= tol * max(1.0, abs(y))


def judge(ctx, kind, a, text, v):
    show = harness.show

    def bad(why):
        ctx.fail("R %s: %s" % (show(text), why))

    def field(name, cls=None):
        if name not in v[1]:
            bad("no %s in the result" % name)
            return None
        return v[1][name][1]

    if kind in ("qis", "qisi", "ipf", "integerise"):
        if kind == "integerise":
            D, shape = a.ndim, a.shape
            want = hl.attempt(H.integerise, np.transpose(a))
        else:
            s, ms = (a[0], a[1]) if kind == "qis" else (a[1], a[2])
            shape = common.dims_of(s, ms)
            D = len(shape)
            mi, mm = mirror(s, ms, D)
            if kind == "qis":
                want = hl.attempt(H.qis, mi, mm, a[2])
            elif kind == "qisi":
                want = hl.attempt(H.qisi, np.transpose(a[0]), mi, mm, a[3])
            else:
                want = hl.attempt(H.ipf, np.transpose(a[0]), mi, mm)
        if want[0] == "raised":
            ctx.n("refused")
            if v[0] != "raised":
                bad("accepted, while python raises %r" % (want[1],))
            return
        if v[0] != "list":
            bad("%s" % (v,))
            return
        pres, pst = np.transpose(want[1][0]), want[1][1]
        res = field("result")
        if res is None:
            return
        if res.shape != tuple(shape):
            bad("result of shape %s, should be %s" % (res.shape, shape))
            return
        if kind == "ipf":
            ok = np.allclose(res, pres, rtol=1e-9, atol=1e-12)
        else:
            ok = np.array_equal(res, pres)
        if not ok:
            bad("%s, python gives %s" % (show(res.tolist()), show(pres.tolist())))
        # and on its own terms
        conv = bool(field("conv"))
        if kind != "integerise":
            if kind == "ipf":
                met = ref.max_error(res, s, ms) < 1e-8 * 1.001
                near = abs(ref.max_error(res, s, ms) - 1e-8) < 1e-10
            else:
                met, near = ref.satisfied(np.round(res).astype(np.int64), s, ms), False
            if conv != met and not near:
                bad("conv %s for %s" % (conv, show(res.tolist())))
        if "expectation" in pst:
            e = field("expectation")
            if e is not None and not (e.shape == tuple(shape) and np.allclose(e, np.transpose(pst["expectation"]), rtol=1e-9, atol=1e-12)):
                bad("expectation %s, python gives %s" % (show(e.tolist()), show(np.transpose(pst["expectation"]).tolist())))
        for k in ("conv", "pop", "iterations", "maxError", "chiSq", "pValue", "rmse"):
            if k in pst:
                x = field(k)
                if x is not None and not (x.size == 1 and close(float(x.ravel()[0]), float(pst[k]), 1e-9)) and k not in ("maxError",):
                    bad("%s is %s, python gives %r" % (k, x.tolist(), pst[k]))
                if k == "maxError" and x is not None and abs(float(x.ravel()[0]) - pst[k]) > 1e-9 * max(1, abs(pst[k])):
                    bad("maxError is %s, python gives %r" % (x.tolist(), pst[k]))
        ctx.n("population")
    elif kind == "flatten":
        if v[0] != "table":
            bad("%s" % (v,))
            return
        nrow, cols = v[1]
        pop = int(a.sum())
        if [c[0] for c in cols] != ["c%d" % d for d in range(a.ndim)] or nrow != pop or any(len(c[1]) != pop for c in cols):
            bad("a table of %d rows and columns %s" % (nrow, [c[0] for c in cols]))
            return
        back = np.zeros(a.shape, dtype=np.int64)
        try:
            if pop:
                c = np.array([c[1] for c in cols]) - 1
                if (c < 0).any():
                    raise IndexError
                np.add.at(back, tuple(c), 1)
            if not np.array_equal(back, a):
                bad("the table counts up to %s" % show(back.tolist()))
        except IndexError:
            bad("categories that do not exist: %s" % show(cols))
        ctx.n("tables")
    elif kind == "prob2IntFreq":
        if v[0] != "list":
            bad("%s" % (v,))
            return
        p, pop = a
        f = field("freq").ravel()
        e = f - p * pop
        if int(f.sum()) != pop or (f < 0).any() or np.abs(e).max() >= 1 + 1e-9 * max(1, pop) or e.max() - e.min() > 1 + 1e-9 * max(1, pop):
            bad("%s" % show(f.tolist()))
        elif not close(float(field("rmse").ravel()[0]), math.sqrt(float((e * e).mean())), 1e-6):
            bad("rmse %s for %s" % (field("rmse"), show(f.tolist())))
        ctx.n("frequencies")
    elif kind == "sobolSequence":
        if v[0] == "raised":
            bad("%s" % (v,))
            return
        d, n, k = a
        m = v[1]
        want = ref.SobolRef.points(1 + ref.skipped(k or 0), n, d) * 2.0 ** -32
        if m.shape != (n, d) or not np.array_equal(m, want):
            bad("%s of shape %s, should be %s" % (show(m.tolist()), m.shape, show(want.tolist())))
        ctx.n("points", n)


def run(batch, ctx):
    texts = [expr(k, a) for k, a in batch]
    try:
        vals = rside.run(texts)
    except rside.Died as e:
        ctx.fail("R died on %s: %s" % (harness.show(texts[min(e.args[0], len(texts) - 1)]), e.args[1]))
        return
    for (k, a), t, v in zip(batch, texts, vals):
        ctx.n("evaluations")
        ctx.seen("distinct", t)
        judge(ctx, k, a, t, v)
    ctx.sample({"R": harness.show(texts[0], 300)})


# ------------------------------------------------------------ what R refuses

def gen_bad():
    i2, m2 = "list(1,2)", "list(c(3,4),c(2,5))"
    s2 = "array(c(1,1,1,1),dim=c(2,2))"
    calls = []
    for f, pre in (("qis", ""), ("ipf", s2 + ","), ("qisi", s2 + ",")):
        for idx, ms in [("list()", "list()"), ("list(1)", "list(c(3,4))"), ("list(1,2)", "list(c(3,4))"), ("list(1)", m2), ("list(1,1)", m2), ("list(0,1)", m2), ("list(-1,1)", m2), ("list(1,3)", m2), ("list(2,3)", m2),
                        ("list(1,2)", "list(c(3,4),c(2,4))"), ("list(1,2)", "list(c(-1,8),c(2,5))"), ("list(1,2)", "list(c(3,4),c(8,-1))"), ("list(c(1,2),2)", m2), ("list(c(1,2),2)", "list(array(c(3,4,0,0),dim=c(2,2)),c(3,4))"),
                        ("list(c(1,1),2)", "list(array(c(1,2,3,1),dim=c(2,2)),c(3,4))"), ("list(1000000,1)", m2), ("list(c(2,1),1)", "list(array(1,dim=c(2,2,2)),c(4,4))"), ("list(1,2)", "list(numeric(0),c(2,5))"),
                        ("list(1,2)", "list(c(3,4),numeric(0))"), ("list('a',2)", m2), ("list(1,2)", "list('a','b')"), ("list(NULL,2)", m2), ("list(1,2)", "list(NULL,c(2,5))"), ("NULL", "NULL")]:
            calls.append("%s(%s%s,%s)" % (f, pre, idx, ms))
        if f != "ipf":
            for k in ("-1", "-2147483647"):
                calls.append("%s(%s%s,%s,%s)" % (f, pre, i2, m2, k))
        if pre:
            for s in ("array(c(1,1,1),dim=c(3,1))", "array(c(1,1,1,1,1,1),dim=c(2,3))", "array(c(1,1,1,1,1,1),dim=c(3,2))", "array(1,dim=c(2,2,1))", "array(1,dim=c(2,2,2))", "array(1,dim=4)", "array(c(1,-1,1,1),dim=c(2,2))",
                      "array(c(1,1,1,-1e-9),dim=c(2,2))", "array(c(NaN,1,1,1),dim=c(2,2))", "array(c(1,1,1,Inf),dim=c(2,2))", "array(c(1,NA,1,1),dim=c(2,2))", "c(1,1,1,1)", "NULL", "'a'"):
                calls.append("%s(%s,%s,%s)" % (f, s, i2, m2))
    for a in ("array(c(1.5,0.5,0.5,1),dim=c(2,2))", "array(c(1.2,0.8,0.9,1.1),dim=c(2,2))", "array(c(-1,2,2,-1),dim=c(2,2))", "array(c(NaN,1,1,1),dim=c(2,2))", "array(c(Inf,1,1,1),dim=c(2,2))", "'a'"):
        calls.append("integerise(%s)" % a)
    for a in ("c(0.5,0.5),-1", "c(0.5,0.4),3", "c(0.5,0.6),3", "c(1.5,-0.5),3", "numeric(0),3", "c(NaN,1),3", "c(Inf,0.5),2", "c(),1"):
        calls.append("prob2IntFreq(%s)" % a)
    for a in ("0,1", "1112,1", "-1,1", "-2147483647,1", "1,1,-1", "2,2,-5", "1000000,1"):
        calls.append("sobolSequence(%s)" % a)
    for a in ("c(1,2),c('a','b')", "array(1:4,dim=c(2,2)),'a'", "array(1:4,dim=c(2,2)),c('a','b','c')", "array(1:4,dim=c(2,2)),character(0)", "c(1,-1),'a'", "c(-1,2),'a'", "array(c(1,-1,0,3),dim=c(2,2)),c('a','b')", "array(c(-5,1,1,9),dim=c(2,2)),c('a','b')"):
        calls.append("flatten(%s)" % a)
    for f, pre in (("qis", ""), ("ipf", s2 + ","), ("qisi", s2 + ",")):
        for idx, ms in [(i2, "list(c(3,NA),c(2,5))"), (i2, "list(c(3,4),c(NaN,5))"), (i2, "list(c(Inf,4),c(2,5))"), (i2, "list(c(3L,NA),c(2L,5L))"), ("list(NA,2)", m2), ("list(1,NaN)", m2), ("list(1,3e9)", m2), (i2, "list(c(3e9,4),c(3e9,4.5))"),
                        (i2, "list(matrix(c(3,4),1),c(2,5))"), ("list(1:2,2)", "list(c(3,4),c(2,5))"), (i2, "list(c(3,4,0),c(2,5),7)"), ("list(1,2,3)", m2), (i2, "list(list(3,4),quote(x))"), (i2, "list(c(3,4),function(x)x)")]:
            calls.append("%s(%s%s,%s)" % (f, pre, idx, ms))
        if f != "ipf":
            calls += ["%s(%s%s,%s,%s)" % (f, pre, i2, m2, k) for k in ("NA", "NaN", "'x'", "3e9", "NULL", "c(1,2)", "-1L")]
    calls += ["sobolSequence(%s)" % a for a in ("NA,1", "1,NA", "2,3,NA", "2,3,-1", "2,3,'x'", "'x',1", "NULL,1", "3e9,1", "2,1,3e9", "2,c(1,2)", "c(2,3),1")]
    calls += ["flatten(c(1,NA),'a')", "flatten(array(c(1,NaN,1,1),dim=c(2,2)),c('a','b'))", "flatten(c(1,3e9),'a')", "flatten(quote(x),'a')", "flatten(c(1,2),NULL)",
              "prob2IntFreq(c(0.5,0.5),NA)", "prob2IntFreq(c(0.5,NA),3)", "prob2IntFreq(c(0.5,0.5),3e9)", "prob2IntFreq(NULL,3)", "prob2IntFreq(c(0.5,0.5),c(1,2))", "prob2IntFreq(c(0.5,0.5),'x')",
              "integerise(array(c(NA,1,1,1),dim=c(2,2)))", "integerise(NULL)", "integerise(quote(x))", "integerise(array(numeric(0),dim=c(0,2)))"]
    # one process each, so that one crash does not hide another; small batches keep it cheap
    for i in range(0, len(calls), 12):
        yield calls[i:i + 12]


def run_bad(calls, ctx):
    good = "qis(list(1,2),list(c(3,4),c(2,5)))"
    todo = list(calls)
    try:
        vals = rside.run([x for c in todo for x in (c, good)])
    except rside.Died as e:
        ctx.fail("R died on %s: %s" % (todo[min(e.args[0] // 2, len(todo) - 1)], e.args[1]))
        return
    for c, v, g in zip(todo, vals[::2], vals[1::2]):
        ctx.n("evaluations")
        ctx.n("malformed")
        ctx.check(v[0] == "raised", lambda: "R %s was accepted: %s" % (c, harness.show(v)))
        ctx.check(g[0] == "list" and bool(g[1]["conv"][1]), lambda: "R: after %s, a good call gives %s" % (c, harness.show(g)))


# ------------------------------------------------------------ R's own ways of writing the same argument

def r_variants(e, a):
    """R expressions with the same values as the array a, written e."""
    a = np.asarray(a)
    whole = bool((a == np.round(a)).all())
    if whole:
        yield "(function(x){storage.mode(x)<-'integer';x})(%s)" % e
    if bool(((a == 0) | (a == 1)).all()):
        yield "(function(x){storage.mode(x)<-'logical';x})(%s)" % e
    yield "structure(%s,note='kept by the caller')" % e
    yield "(%s)[%s,drop=FALSE]" % (e, "," * (a.ndim - 1))
    yield "(function(x){x[1]<-x[1];x})(%s)" % e
    if a.ndim == 1:
        yield "array(%s,dim=%d)" % (e, a.size)
        yield "setNames(%s,paste0('n',1:%d))" % (e, a.size)
        yield "rev(rev(%s))" % e
        if whole and a.size > 1 and bool((np.diff(a) == 1).all()):
            yield "%d:%d" % (a[0], a[-1])
        if whole and len(set(a.tolist())) == 1:
            yield "rep(%dL,%d)" % (a[0], a.size)
    else:
        yield "aperm(aperm(%s))" % e
        yield "(function(x){dimnames(x)<-lapply(dim(x),function(n)paste0('n',seq_len(n)));x})(%s)" % e
        if a.ndim == 2:
            yield "as.matrix(as.data.frame(%s))" % e
            yield "t(t(%s))" % e
    yield "as.table(%s)" % e if a.ndim > 1 or whole else "as.vector(%s)" % e


def r_index(i):
    yield "c(%s)" % ",".join("%dL" % (d + 1) for d in i)
    yield "array(c(%s),dim=%d)" % (",".join("%d" % (d + 1) for d in i), len(i))
    yield "c(%s)" % ",".join("k%d=%d" % (d, d + 1) for d in i)
    yield "as.numeric(c(%s))" % ",".join("%d" % (d + 1) for d in i)
    if list(i) == list(range(i[0], i[0] + len(i))):
        yield "%d:%d" % (i[0] + 1, i[-1] + 1)


def gen_written():
    for shape, s in [((2, 3), [(0,), (1,)]), ((3, 2), [(1,), (0,)]), ((2, 3, 4), [(0, 1), (1, 2)]), ((2, 3, 2), [(2, 0), (1,)]), ((2, 3, 2), [(2, 1, 0), (1,)]), ((4, 3), [(0,), (1,)])]:
        for one in (False, True):
            j = np.ones(shape, dtype=int) if one else scen.mixed(shape, 2, 6) + 1
            seed = np.ones(shape) if one else 1.0 + scen.mixed(shape, 5, 5)
            yield shape, s, j, seed


def run_written(case, ctx):
    shape, s, j, seed = case
    ms = scen.margs(j, s)
    x, _, _, _ = ref.ipf_run(seed, [(d,) for d in range(len(shape))], scen.margs(j, [(d,) for d in range(len(shape))]))
    calls = []

    def put(parts, n, v):
        return parts[:n] + [v] + parts[n + 1:]

    def join(f, pre, idx, mar, post):
        return "%s(%slist(%s),list(%s)%s)" % (f, pre and pre + ",", ",".join(idx), ",".join(mar), post)
    idx = [rside.vec(d + 1 for d in i) for i in s]
    mar = [rside.arr(m) for m in ms]
    frac = [rside.arr(m / 8.0) for m in ms]
    for f, pre, ma, arrs, post in [("qis", "", mar, ms, ",9"), ("qisi", rside.arr(seed), mar, ms, ""), ("ipf", rside.arr(seed), frac, [m / 8.0 for m in ms], ""), ("ipf", rside.arr(seed), mar, ms, "")]:
        base = join(f, pre, idx, ma, post)
        for n in range(len(s)):
            calls += [(base, join(f, pre, put(idx, n, v), ma, post)) for v in r_index(s[n])]
            calls += [(base, join(f, pre, idx, put(ma, n, v), post)) for v in r_variants(ma[n], arrs[n])]
        if pre:
            calls += [(base, join(f, v, idx, ma, post)) for v in r_variants(pre, seed)]
        calls.append((base, join(f, pre, ["a%d=%s" % q for q in enumerate(idx)], ["b%d=%s" % q for q in enumerate(ma)], post)))
        calls.append((base, "%s(%smarginals=list(%s),indices=list(%s)%s)" % (f, pre and "seed=" + pre + ",", ",".join(ma), ",".join(idx), post.replace(",", ",skips="))))
    base = join("qis", "", idx, mar, "")
    calls += [(base, join("qis", "", idx, mar, t)) for t in (",0", ",0L", ",FALSE", ",skips=0")]
    base = join("qis", "", idx, mar, ",1")
    calls += [(base, join("qis", "", idx, mar, t)) for t in (",1L", ",TRUE", ",skips=1")]
    for f, a in (("integerise", x), ("integerise", j)):
        calls += [("%s(%s)" % (f, rside.arr(a)), "%s(%s)" % (f, v)) for v in r_variants(rside.arr(a), a)]
    names = "c(%s)" % ",".join("'n%d'" % d for d in range(j.ndim))
    calls += [("flatten(%s,%s)" % (rside.arr(j), names), "flatten(%s,%s)" % (v, names)) for v in r_variants(rside.arr(j), j)]
    one = j.ravel()[:4]
    calls += [("flatten(%s,'q')" % rside.arr(one), "flatten(%s,'q')" % v) for v in r_variants(rside.arr(one), one)]
    p = one / one.sum()
    calls += [("prob2IntFreq(%s,7)" % rside.arr(p), "prob2IntFreq(%s,%s)" % (v, n)) for v in r_variants(rside.arr(p), p) for n in ("7", "7L")]
    calls += [("sobolSequence(2,3,5)", "sobolSequence(%s)" % t) for t in ("2L,3L,5L", "skip=5,dim=2,n=3", "2,3,skip=5L", "n=3,skip=5,dim=2")] + [("sobolSequence(1,1,1)", "sobolSequence(TRUE,TRUE,TRUE)")]
    # names of columns, as asked
    for n, odd in enumerate(("a b", "1", "if", "row.names", "", "same", "a.b", "stringsAsFactors", "check.names", "x y  z", "V1", "names", "\u00e9t\u00e9")):
        for d in range(j.ndim):
            nm = ["same" if odd == "same" else "n%d" % e for e in range(j.ndim)]
            nm[d] = odd
            nv = "c(%s)" % ",".join("'%s'" % e for e in nm)
            calls.append(("TRUE", "identical(names(flatten(%s,%s)),%s)" % (rside.arr(j), nv, nv)))
            calls.append(("unname(as.list(flatten(%s,%s)))" % (rside.arr(j), names), "unname(as.list(flatten(%s,%s)))" % (rside.arr(j), nv)))
    calls = [(b, "identical(%s,%s)" % (b, t)) for b, t in calls]
    try:
        vals = rside.run([t for b, t in calls])
    except rside.Died as e:
        ctx.fail("R died on %s: %s" % (harness.show(calls[min(e.args[0], len(calls) - 1)][1]), e.args[1]))
        return
    for (b, t), v in zip(calls, vals):
        ctx.n("evaluations")
        ctx.seen("distinct", t)
        ctx.n("written")
        ctx.check(v[0] == "logical" and v[1].size == 1 and v[1][0] == 1, lambda: "R: %s is not TRUE, but %s" % (harness.show(t), harness.show(v)))


def main(replay=None):
    global H
    H = hl.load()
    rside.load()
    ref.SobolRef.table()
    stages = [Stage("mirrored-problems", gen, run, limit=600), Stage("written-differently", gen_written, run_written, limit=300), Stage("malformed", gen_bad, run_bad, limit=300)]

    def summ(t):
        return dict(evaluations=t.counts["evaluations"], distinct_nontrivial=len(t.sets["distinct"]), populations=t.counts["population"], tables=t.counts["tables"], frequencies=t.counts["frequencies"],
                    sobol_points=t.counts["points"], refused_by_both=t.counts["refused"], malformed=t.counts["malformed"], written_differently=t.counts["written"],
                    rule="every listed problem through the installed R package and, mirrored, through the Python extension; non-trivial: a distinct well-formed R call", samples=t.samples[:4])

    return harness.run_check("C16", stages, "exploration", summ, replay, assumptions=["R 's qisi result has no degeneracy; R counts dimensions from 1 and stores the first fastest"])
