"""C17: no call touches memory that is not its own, or does what C++ leaves undefined: the other checks' inputs under the sanitizers and checked containers."""
import os
import subprocess
import sys

import numpy as np

from lib import build, harness, hl, ref
from lib.harness import Ctx, Stage, TIER

MARK = "HL_UNDER_ASAN"


def reexec(replay):
    lib = subprocess.run(["gcc", "-print-file-name=libasan.so"], stdout=subprocess.PIPE, text=True).stdout.strip()
    cxx = subprocess.run(["gcc", "-print-file-name=libstdc++.so"], stdout=subprocess.PIPE, text=True).stdout.strip()
    env = dict(os.environ)
    env[MARK] = "1"
    env["LD_PRELOAD"] = lib + " " + os.path.realpath(cxx)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:detect_stack_use_after_return=1:allocator_may_return_null=1:strict_init_order=1:quarantine_size_mb=16:print_legend=0"
    env["UBSAN_OPTIONS"] = "abort_on_error=1:print_stacktrace=1"
    env["PYTHONMALLOC"] = "malloc"
    a = [sys.executable, os.path.join(build.VERIF, "check.py"), "C17"] + (["--replay", replay] if replay else [])
    os.execve(sys.executable, a, env)


def only_memory(mod, stage, every=1):
    """The stage's cases, judged by whether the process survives them."""
    def gen():
        for i, c in enumerate(stage.gen()):
            if i % every == 0:
                yield c

    def run(case, ctx):
        inner = Ctx()
        stage.run(case, inner)
        ctx.n("evaluations", max(1, inner.counts["executions"] or inner.counts["evaluations"]))
        ctx.seen("cases", (stage.name, mod, case if not isinstance(case, list) else repr(case)))
    return Stage("%s: %s" % (mod, stage.name), gen, run, limit=600, hook=stage.hook)


# ------------------------------------------------------------ the R front end, its vectors bounds-checked too

def r_calls(c16):
    """Calls of the R package: the problems and malformed calls of C16, and indices and marginals of every pair of shapes."""
    for k, a in c16.items():
        if k == "sobolSequence" and (a[1] > 100 or (a[2] or 0) > 10 ** 6) or k == "flatten" and a.sum() > 10 ** 4 or k in ("qis", "qisi", "ipf") and a[0 if k == "ipf" else -1] is None:
            continue
        yield c16.expr(k, a)
    for b in c16.gen_bad():
        yield from b
    vals = ["numeric(0)", "c(3)", "c(3,4)", "c(2,5)", "c(1,2,4)", "array(c(1,2,3,1),dim=c(2,2))", "array(c(1,2,1,3),dim=c(1,4))", "array(7,dim=c(1,1,1))", "array(c(1,2,1,3,0,0,0,0),dim=c(2,2,2))", "NULL", "c(3L,4L)", "c(NA,4)", "c(TRUE,FALSE)"]
    idx = ["numeric(0)", "1", "2", "c(1,2)", "c(2,1)", "c(1,2,3)", "c(3,1,2)", "c(1,1)", "0", "-1", "2147483647", "NA", "NULL"]
    seeds = ["array(1,dim=c(2,2))", "array(1,dim=c(2,2,2))", "1", "numeric(0)", "array(numeric(0),dim=c(0,2))", "array(1,dim=c(2,3))"]
    n = 0
    for i in idx:
        for j in idx:
            for a in vals:
                n += 1
                b = vals[n % len(vals)]
                for f in ("qis(", "ipf(%s," % seeds[n % len(seeds)], "qisi(%s," % seeds[(n // 7) % len(seeds)]):
                    yield "%slist(%s,%s),list(%s,%s))" % (f, i, j, a, b)
                if n % 9 == 0:
                    yield "%slist(%s),list(%s))" % ("qis(" if n % 2 else "ipf(%s," % seeds[n % 6], i, a)
    for v in vals + seeds:
        yield "flatten(%s,c('a','b'))" % v
        yield "flatten(%s,'a')" % v
        yield "integerise(%s)" % v
        for p in ("0", "3", "NA", "NULL", "numeric(0)"):
            yield "prob2IntFreq(%s,%s)" % (v, p)
            yield "sobolSequence(%s,%s)" % (v, p)
            yield "sobolSequence(2,3,%s)" % v
    yield "unitTest()"


def gen_r():
    from checks import c16
    calls = list(r_calls(c16))
    n = 60
    every = 1 if TIER == "thorough" else 3
    calls = calls[::every] if every > 1 else calls
    nb = -(-len(calls) // n)
    for b in range(nb):
        yield calls[b::nb]


def run_r(calls, ctx):
    from lib import rside
    try:
        rside.run(calls)
    except rside.Died as e:
        ctx.fail("R: %s: %s" % (harness.show(calls[min(e.args[0], len(calls) - 1)]), e.args[1]))
        return
    ctx.n("evaluations", len(calls))
    for c in calls:
        ctx.seen("cases", ("R", c))


def main(replay=None):
    if not os.environ.get(MARK):
        build.python_ext("asan")
        reexec(replay)
    # the sanitizer stays out of the way of whatever else is started
    os.environ.pop("LD_PRELOAD", None)
    hl.load("asan")
    H = hl.humanleague
    # the sanitizer is really there
    pid = os.fork()
    if pid == 0:
        import ctypes
        os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
        lib = ctypes.CDLL(None)
        lib.__asan_report_error
        os._exit(0)
    if os.waitpid(pid, 0)[1] != 0:
        raise RuntimeError("not running under AddressSanitizer")
    ref.SobolRef.table()
    from checks import c01, c02, c03, c09, c10, c11, c12, c13, c14, c15
    for m in (c01, c02, c03, c09, c10, c11, c12, c13, c14, c15):
        m.H = H
    c15.prepare()
    t = TIER == "thorough"
    small = lambda gen, n, size: (lambda: (c for c in gen() if size(c) <= n))
    weight = lambda c: int(c[1].sum()) * c[1].size
    stages = [
        only_memory("unit tests", Stage("all", lambda: iter([0]), lambda c, x: H._unittest() if hasattr(H, "_unittest") else hl._ext._unittest())),
        only_memory("malformed", Stage("defects", c13.gen, c13.run)),
        only_memory("malformed", Stage("odd-arguments", c13.gen_odd, c13.run_odd), 1 if t else 3),
        only_memory("malformed", Stage("flatten", c12.gen_bad, c12.run_bad)),
        only_memory("malformed", Stage("integerise", c10.gen_bad, c10.run_bad)),
        only_memory("malformed", Stage("integerise-nd", c11.gen_bad, c11.run_bad)),
        only_memory("malformed", Stage("sobol", c09.gen_args, c09.run_args)),
        only_memory("qis", Stage("choice-trees", c01.gen_tree, c01.run_tree, hook=True), 1 if t else 9),
        only_memory("qis", Stage("exhaustion", c01.gen_exhaust, c01.run_exhaust, hook=True)),
        only_memory("qis", Stage("structures", c01.gen_struct, c01.run_struct), 1 if t else 4),
        only_memory("qis", Stage("ladder", small(c01.gen_ladder, 10 ** 7 if t else 200000, weight), c01.run_struct)),
        only_memory("qisi", Stage("choice-trees", c02.gen_tree, c02.run_tree, hook=True), 1 if t else 15),
        only_memory("qisi", Stage("exhaustion", c02.gen_exhaust, c02.run_exhaust, hook=True)),
        only_memory("qisi", Stage("structures", c02.gen_struct, c02.run_struct), 1 if t else 6),
        only_memory("qisi", Stage("ladder", small(c02.gen_ladder, 10 ** 5 if t else 4000, weight), c02.run_struct)),
        only_memory("integerise", Stage("small", c11.gen_small, c11.run), 1 if t else 8),
        only_memory("integerise", Stage("vectors", c10.gen_frac, c10.run_frac), 1 if t else 8),
        only_memory("flatten", Stage("small", c12.gen_small, c12.run), 1 if t else 4),
        only_memory("flatten", Stage("large", c12.gen_large, c12.run), 1 if t else 2),
        only_memory("representations", Stage("all", c14.gen, c14.run), 1 if t else 19),
        only_memory("malformed", Stage("too-many-states", c13.gen_huge, c13.run_huge), 1 if t else 3),
        only_memory("histories", Stage("ownership", c15.gen_own, c15.run_own)),
        only_memory("histories", Stage("threads", c15.gen_threads, c15.run_threads), 1 if t else 3),
        only_memory("histories", Stage("large", lambda: iter([(i, (i + 1) % len(c15.LARGE)) for i in range(len(c15.LARGE)) if t or np.prod(c15.LARGE[i][0]) < 20000 > np.prod(c15.LARGE[(i + 1) % len(c15.LARGE)][0])]), c15.run_large)),
    ]
    if hasattr(c03, "run"):
        from checks import ipfcases
        stages.insert(-2, only_memory("ipf", Stage("problems", small(ipfcases.gen, 10 ** 5 if t else 20000, lambda c: c[2].size), c03.run), 1 if t else 11))

    from lib import rside
    rside.load("checked")
    stages.append(Stage("R: all", gen_r, run_r, limit=600))

    def summ(tt):
        return dict(evaluations=tt.counts["evaluations"], distinct_nontrivial=len(tt.sets["cases"]),
                    rule="the cases of the other checks (quick: every n-th of the large families, all the malformed ones), under AddressSanitizer, UndefinedBehaviorSanitizer and checked standard containers; "
                         "non-trivial: a distinct case", samples=[{"stages": [s.name for s in stages]}])

    return harness.run_check("C17", stages, "exploration", summ, replay, assumptions=[
        "what AddressSanitizer, UndefinedBehaviorSanitizer and the checked containers detect: out of bounds, use after free, double free, integer overflow, misaligned access; uninitialised reads are C15's, leaks C18's",
        "the Python front end"])
