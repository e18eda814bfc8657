"""C20: memory that runs out, at whichever allocation, makes a call fail and nothing else."""
import ctypes
import gc
import os
import pickle
import signal
import subprocess
import sys

import numpy as np

from checks import c15
from checks.c14 import same
from lib import build, harness, hl, ref
from lib.harness import Stage, TIER

H = None
LIB = None
FRESH = {}
# a case looks at every PARTS-th of the allocations chosen
PARTS = 4
REPEAT = 3
# allocations made at the same place, of the same size: the first and the last so many are made to fail (thorough: all)
SAME = 2 if TIER == "quick" else 10**9
AFTER = (0, 5, 6, 9, 12, 13)


class Faults:
    """The allocations of the extension, of which the at-th fails (and all after it)."""

    def __init__(self, at, always):
        self.at, self.always = at, always

    def set(self, name, v):
        (ctypes.c_int if name == "armed" else ctypes.c_longlong).in_dll(LIB, "hlf_" + name).value = v

    def __enter__(self):
        for k, v in (("seen", 0), ("failed", 0), ("at", self.at), ("always", self.always), ("armed", 1)):
            self.set(k, v)
        return self

    def __exit__(self, *a):
        self.set("armed", 0)
        self.seen, self.failed = (ctypes.c_longlong.in_dll(LIB, "hlf_" + n).value for n in ("seen", "failed"))
        return False


def pybinds(name):
    """Whether a function is pybind11's (or the library's, instantiated by it) rather than the extension's own."""
    plain, depth = "", 0
    for c in name.replace("operator<", "operator").replace("->", ""):
        depth += (c == "<") - (c == ">")
        if c == "(" and not depth and plain:
            break
        if not depth and c not in "<>":
            plain += c
    return "pybind11" in name and not plain.split(" ")[-1].startswith("hl::")


def skip():
    """Memory for pybind11's own purposes does not run out: it is not prepared for that (an object whose registration fails ends the process)."""
    p = subprocess.run(["nm", "-C", "-S", "--defined-only", hl._ext.__file__], stdout=subprocess.PIPE, text=True, env={k: v for k, v in os.environ.items() if k != "LD_PRELOAD"})
    lo = (ctypes.c_ulong * 4).in_dll(LIB, "hlf_range")[0]
    found = set()
    for l in p.stdout.splitlines():
        f = l.split(" ", 3)
        if len(f) == 4 and f[2] in "tTwWuV" and pybinds(f[3]):
            found.add((lo + int(f[0], 16), lo + int(f[0], 16) + int(f[1], 16)))
    flat = [x for r in sorted(found)[:20000] for x in r]
    (ctypes.c_ulong * len(flat)).in_dll(LIB, "hlf_skip")[:] = flat
    ctypes.c_int.in_dll(LIB, "hlf_nskip").value = len(flat) // 2
    if not flat:
        raise RuntimeError("no function of pybind11 found")


def held():
    return ctypes.c_longlong.in_dll(LIB, "hlf_held").value


def ranges():
    """Where the extension and libstdc++ have been loaded."""
    out = {}
    with open("/proc/self/maps") as f:
        for l in f:
            p = l.split()
            if len(p) > 5:
                for n, what in ((0, "_humanleague"), (2, "libstdc++")):
                    if os.path.basename(p[5]).startswith(what):
                        a, b = (int(x, 16) for x in p[0].split("-"))
                        lo, hi = out.get(n, (a, b))
                        out[n] = min(a, lo), max(b, hi)
    r = (ctypes.c_ulong * 4).in_dll(LIB, "hlf_range")
    for n, (lo, hi) in out.items():
        r[n], r[n + 1] = lo, hi
    if len(out) != 2:
        raise RuntimeError("extension or libstdc++ not found")


def generator(v):
    """Points drawn one by one, each of which may fail: what has been drawn is in order and from the sequence."""
    g = H.SobolSequence(3, 9)
    out, failed = [], None
    for _ in range(12):
        try:
            out.append(next(g))
        except MemoryError as e:
            failed = e
    if failed is not None:
        raise Interrupted(out)
    return out


class Interrupted(Exception):
    pass


def ops():
    r = [(n, f) for n, f in c15.OPS]
    r.append(("generator", generator))
    alike = c15.alike()
    for n, f in alike[::1 if TIER == "thorough" else 6]:
        r.append((n, lambda v, f=f: f()))
    return r


OPS = None


def do(n, v):
    kind, r = hl.attempt(OPS[n][1], v)
    return (kind, r) if kind == "ok" else (kind, type(r).__name__, r.args[0] if isinstance(r, Interrupted) else str(r))


def child(n, at, always):
    """In a process of its own, in which nothing has been called before: (what happened, what is wrong)"""
    v = c15.inputs()
    whole = pickle.dumps(v)
    bad = []
    with Faults(at, always) as f:
        out = do(n, v)
    if not f.failed:
        return f.seen, False, bad
    fresh = FRESH[n]

    def judge(out, when):
        if out[0] == "ok":
            if not same(out, fresh):
                bad.append("%s returned %s, and %s when no allocation fails" % (when, harness.show(out[1]), harness.show(fresh)))
        elif out[1] == "Interrupted":
            pts = [tuple(p) for p in fresh[1]] + [tuple(p) for p in generator_rest()]
            got = [tuple(p) for p in out[2]]
            it = iter(pts)
            if not all(p in it for p in got):
                bad.append("%s the generator returned points out of order or not in the sequence: %s" % (when, harness.show(out[2])))
    judge(out, "the call")
    again = do(n, v)
    if not same(again, fresh):
        bad.append("afterwards the same call gives %s, not %s" % (harness.show(again), harness.show(fresh)))
    seen = []
    for _ in range(REPEAT):
        with Faults(at, always):
            out = do(n, v)
        judge(out, "a later call")
        del out
        gc.collect()
        seen.append(held())
    if all(b > a for a, b in zip(seen, seen[1:])):
        bad.append("blocks held after each of several failures: %s" % seen)
    if pickle.dumps(v) != whole:
        bad.append("the arguments were changed")
    for m in AFTER + (n,):
        again = do(m, c15.inputs())
        if not same(again, FRESH[m]):
            bad.append("afterwards %s gives %s, not %s" % (OPS[m][0], harness.show(again), harness.show(FRESH[m])))
    return f.seen, True, bad


def generator_rest():
    r = ref.SobolRef.points
    return [[x / 2.0**32 for x in p] for p in np.asarray(r(3, 9, 40)).reshape(-1, 3)] if r else []


def apart(f, *a):
    """f(*a) in a forked process: ("ok", result) or ("died", how)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            null = os.open("/dev/null", os.O_WRONLY)
            os.dup2(null, 2)
            with os.fdopen(w, "wb") as h:
                h.write(pickle.dumps(f(*a)))
            os._exit(0)
        except BaseException as e:
            os._exit(3)
    os.close(w)
    with os.fdopen(r, "rb") as h:
        data = h.read()
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        return "died", "signal %d (%s)" % (os.WTERMSIG(st), signal.strsignal(os.WTERMSIG(st)))
    if st:
        return "died", "exit status %d" % os.WEXITSTATUS(st)
    return "ok", pickle.loads(data)


def trace(n):
    """Caller and size of each allocation of the n-th operation, called first thing in a process."""
    v = c15.inputs()
    with Faults(0, 0) as f:
        do(n, v)
    t = (ctypes.c_ulong * 400000).in_dll(LIB, "hlf_trace")
    k = min(f.seen, 200000)
    return f.seen, np.array(t[:2 * k]).reshape(k, 2).tolist()


def chosen(n):
    """Which allocations are made to fail."""
    kind, r = apart(trace, n)
    if kind != "ok":
        raise RuntimeError("%s: %s" % (OPS[n][0], r))
    alike = {}
    for i, (caller, size) in enumerate(r[1]):
        alike.setdefault((caller, size), []).append(i + 1)
    return r[0], sorted({i for l in alike.values() for i in l[:SAME] + l[-SAME:]})


def gen():
    for n in range(len(OPS)):
        for part in range(PARTS):
            for always in (0, 1):
                yield n, part, always


def run(case, ctx):
    n, part, always = case
    died = 0
    seen, ats = chosen(n)
    if not part and not always:
        ctx.n("allocations", seen)
        ctx.n("places", len(ats))
    for at in ats[part::PARTS]:
        kind, r = apart(child, n, at, always)
        what = "%s, of whose %d allocations number %d%s fails" % (OPS[n][0], seen, at, " and every later one" if always else "")
        if kind == "died":
            ctx.fail("%s: the process died: %s" % (what, r))
            died += 1
            if died == 3:
                return
        else:
            if not r[1]:
                ctx.n("allocations not made again")
                continue
            for b in r[2]:
                ctx.fail("%s: %s" % (what, b))
        ctx.n("evaluations")
        ctx.n("calls", 2 + REPEAT + len(AFTER) + 1)
        ctx.seen("cases", (n, at, always))
        ctx.sample({"call": OPS[n][0], "failing": at, "and later ones": bool(always)})


# ------------------------------------------------------------ arrays and generators in C++

GROUPS = {1: "arrays", 2: "generators", 3: "functions of arrays"}
BINS = {}


def run_objects(case, ctx):
    group, env = case
    e = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:print_legend=0", UBSAN_OPTIONS="print_stacktrace=0", **env)
    e.pop("LD_PRELOAD", None)
    p = subprocess.run([BINS[group]], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=e)
    bad = [l[5:] for l in p.stdout.splitlines() if l.startswith("FAIL ")]
    for l in bad:
        ctx.fail("%s: %s" % (GROUPS[group], l))
    if not bad:
        ctx.check(p.returncode == 0 and p.stdout.endswith("DONE\n"), lambda: "%s: exit status %d\n%s" % (GROUPS[group], p.returncode, p.stderr[:3000]))
    for l in p.stdout.splitlines():
        if l.startswith("COUNT "):
            ctx.n("objects " + l.split()[1], int(l.split()[2]))


def main(replay=None):
    global H, LIB, OPS, BINS
    so = os.path.join(build.python_ext(), "faults.so")
    if os.environ.get("LD_PRELOAD") != so:
        os.execve(sys.executable, [sys.executable, os.path.join(build.VERIF, "check.py"), "C20"] + (["--replay", replay] if replay else []), dict(os.environ, LD_PRELOAD=so))
    LIB = ctypes.CDLL(so)
    H = hl.load()
    ref.SobolRef.table()
    c15.H = H
    ranges()
    skip()
    OPS = ops()
    for n in range(len(OPS)):
        kind, r = apart(do, n, c15.inputs())
        if kind != "ok":
            raise RuntimeError("%s: %s" % (OPS[n][0], r))
        FRESH[n] = r
    flags = ("-O1", "-g1", "-fno-omit-frame-pointer", "-include", os.path.join(build.VERIF, "harness/nomem.h"),
             "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-D_GLIBCXX_ASSERTIONS")
    BINS, errs = build.cxx_groups("nomem", "harness/nomem.cpp", sorted(GROUPS), flags)
    depth = {"DEPTH": "4" if TIER == "thorough" else "3"}
    objects = [(g, depth) for g in sorted(BINS)]
    stages = [Stage("objects", lambda: iter(objects), run_objects, limit=3000), Stage("allocations", gen, run, limit=150)]

    def summ(t):
        return dict(evaluations=t.counts["evaluations"], distinct_nontrivial=len(t.sets["cases"]), calls=t.counts["calls"], allocations=t.counts["allocations"], allocations_failing=t.counts["places"], not_made_again=t.counts["allocations not made again"],
                    rule="an evaluation is one call, of whose allocations a given one (or it and all later ones) fails, first thing in a process, and again and again, and the calls made afterwards",
                    histories_of_objects=t.counts["objects cases"], comparisons_of_objects=t.counts["objects steps"], groups_left_out=len(errs), samples=t.samples)

    # an interface a group drives has changed: nothing can be said about it
    notes = {"left out: " + GROUPS[g]: e[-600:] for g, e in errs.items()}
    return harness.run_check("C20", stages, "exploration", summ, replay, exhaustive=not errs, pre_notes=notes, assumptions=[
        "of the allocations a call makes at one place and of one size, the first %s and the last %s fail" % ((SAME, SAME) if TIER == "quick" else ("(all)", "(all)")),
        "allocations of the interpreter, of numpy and of pybind11's own functions do not fail"])
