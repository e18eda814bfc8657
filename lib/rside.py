"""Runs batches of calls against the freshly built R package."""
import hashlib
import os
import re
import subprocess
import tempfile

import numpy as np

from lib import build

LIB = None
ENV = {}
BLOBS = {}


def load(variant="std"):
    global LIB, ENV
    LIB = build.r_package(variant)
    if variant == "checked":
        ENV = dict(LD_PRELOAD=build.asan_preload(), ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:detect_stack_use_after_return=1:allocator_may_return_null=1:print_legend=0",
                   UBSAN_OPTIONS="abort_on_error=1:print_stacktrace=1")


def num(v):
    v = float(v)
    if v != v:
        return "NaN"
    if v in (float("inf"), float("-inf")):
        return "Inf" if v > 0 else "-Inf"
    return repr(int(v)) if v == int(v) and abs(v) < 1e15 else "%.17g" % v


def arr(a):
    """An R array with the same index -> value map (R stores the first index fastest). A vector has no dim attribute."""
    a = np.asarray(a)
    if a.size > 1000:
        # R parses long literals slowly: these are read from a file beside the script
        text = " ".join(num(v) for v in a.ravel(order="F"))
        name = hashlib.sha1(text.encode()).hexdigest()[:12]
        BLOBS[name] = text
        c = 'scan("%s",quiet=TRUE)' % name
    else:
        c = "c(%s)" % ",".join(num(v) for v in a.ravel(order="F"))
    return c if a.ndim == 1 else "array(%s,dim=c(%s))" % (c, ",".join(map(str, a.shape)))


def vec(v):
    return "c(%s)" % ",".join(str(int(x)) for x in v)


def lst(items):
    return "list(%s)" % ",".join(items)


PRELUDE = r'''
suppressPackageStartupMessages(library(humanleague, lib.loc=%r))
show <- function(x) {
  d <- dim(x)
  if (is.data.frame(x)) {
    cat("T ", ncol(x), " ", nrow(x), "\n", sep="")
    for (i in seq_along(x)) cat("C ", names(x)[i], " ", paste(x[[i]], collapse=" "), "\n", sep="")
  } else if (is.list(x)) {
    cat("L ", length(x), "\n", sep="")
    for (n in names(x)) { cat("N ", n, "\n", sep=""); show(x[[n]]) }
  } else {
    cat("A ", class(x[1])[1], " ", paste(d, collapse=","), " ", paste(sprintf("%%.17g", as.numeric(x)), collapse=" "), "\n", sep="")
  }
}
run <- function(id, f) {
  cat("BEGIN ", id, "\n", sep="")
  r <- tryCatch(f(), error=function(e) structure(list(), class="oops", msg=conditionMessage(e)))
  if (inherits(r, "oops")) cat("E ", gsub("\n", " ", attr(r, "msg")), "\n", sep="") else show(r)
  cat("END ", id, "\n", sep="")
}
'''


class Died(Exception):
    pass


def _value(lines, i):
    t = lines[i]
    if t.startswith("E "):
        return ("raised", t[2:]), i + 1
    if t.startswith("A "):
        p = t.split(" ")
        v = np.array([float("nan" if x in ("NA", "NaN") else x) for x in p[3:] if x != ""])
        if p[2]:
            v = v.reshape([int(d) for d in p[2].split(",")], order="F")
        return (p[1], v), i + 1
    if t.startswith("L "):
        n = int(t[2:])
        out = {}
        i += 1
        for _ in range(n):
            k = lines[i][2:]
            out[k], i = _value(lines, i + 1)
        return ("list", out), i
    if t.startswith("T "):
        _, nc, nr = t.split(" ")
        cols = []
        for j in range(int(nc)):
            p = lines[i + 1 + j].split(" ")
            cols.append((p[1], [int(x) for x in p[2:] if x != ""]))
        return ("table", (int(nr), cols)), i + 1 + int(nc)
    raise ValueError(t)


def run(exprs, timeout=600):
    """Evaluates the R expressions in one R process. Returns one value per expression; raises Died((index, why)) if R does not survive."""
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, "batch.R")
        with open(f, "w") as fh:
            fh.write(PRELUDE % LIB)
            for i, e in enumerate(exprs):
                fh.write("run(%d, function() %s)\n" % (i, e))
                for name in re.findall(r'scan\("(\w+)"', e):
                    with open(os.path.join(d, name), "w") as g:
                        g.write(BLOBS[name])
        env = dict(os.environ, **ENV)
        for v in ("R_LIBS", "R_LIBS_SITE", "R_PROFILE_USER"):
            env.pop(v, None)
        p = subprocess.run(["Rscript", "--vanilla", f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, env=env, cwd=d)
    lines = p.stdout.split("\n")
    out = []
    i = 0
    while i < len(lines):
        if lines[i].startswith("BEGIN "):
            try:
                v, j = _value(lines, i + 1)
                if lines[j] != "END %d" % len(out):
                    raise ValueError(lines[j])
            except (ValueError, IndexError):
                break
            out.append(v)
            i = j
        i += 1
    if len(out) != len(exprs):
        if p.returncode == 0 or "Error" in p.stderr[-2000:] and p.returncode == 1:
            raise RuntimeError("R: %s %s" % (p.returncode, p.stderr[-2000:]))
        raise Died(len(out), "R ended with status %d: %s" % (p.returncode, p.stderr[-300:] if not ENV else p.stderr[-6000:][:3000]))
    return out
