"""C19: the array primitives: iteration, mapping, reduction, slicing and storage, against arithmetic on positions."""
import os
import subprocess

from lib import build, harness
from lib.harness import Stage, TIER

FLAGS = ("-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-D_GLIBCXX_ASSERTIONS")
GROUPS = {1: "iteration", 2: "mapped-iteration", 3: "fixed-iteration", 4: "reduce-and-slice", 5: "sums-and-lists", 6: "storage"}
BINS = {}


def run(case, ctx):
    group, env = case
    e = dict(os.environ, ASAN_OPTIONS="detect_leaks=1:abort_on_error=0:exitcode=99:print_legend=0", UBSAN_OPTIONS="print_stacktrace=0", **env)
    e.pop("LD_PRELOAD", None)
    p = subprocess.run([BINS[group]], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=e)
    bad = [l[5:] for l in p.stdout.splitlines() if l.startswith("FAIL ")]
    for l in bad:
        ctx.fail(l)
    if not bad:
        ctx.check(p.returncode == 0 and p.stdout.endswith("DONE\n"), lambda: "%s: exit status %d\n%s" % (GROUPS[group], p.returncode, p.stderr[:3000]))
    for l in p.stdout.splitlines():
        if l.startswith("COUNT "):
            ctx.n(l.split()[1], int(l.split()[2]))
    ctx.sample({"group": GROUPS[group], "env": env})


def main(replay=None):
    global BINS
    notes = {}
    BINS, errs = build.cxx_groups("arrays", "harness/arrays.cpp", sorted(GROUPS), FLAGS)
    for g, e in errs.items():
        # an interface this group drives has changed: nothing can be said about it
        notes["left out: " + GROUPS[g]] = e[-600:]
    depth = 5 if TIER == "thorough" else 4
    stages = []
    for g in sorted(BINS):
        cases = [(g, {})] if g != 6 else [(g, {"DEPTH": str(depth), "FIRST": str(k)}) for k in range(17)]
        stages.append(Stage(GROUPS[g], lambda cases=cases: iter(cases), run, limit=3000))

    def summ(t):
        return dict(evaluations=t.counts["steps"], distinct_nontrivial=t.counts["cases"], groups_left_out=len(errs),
                    rule="an evaluation is one comparison; a case is a shape with a choice of dimensions, fixed or mapped, or a sequence of %d operations on two arrays" % depth,
                    samples=t.samples)

    return harness.run_check("C19", stages, "exploration", summ, replay, exhaustive=not errs, pre_notes=notes, assumptions=[
        "exhaustive for up to 4 dimensions of up to 3 categories (see DESIGN.md), storage operations up to depth %d" % depth,
        "the classes are driven through their C++ interface; a part whose interface has changed is left out and reported so"])
