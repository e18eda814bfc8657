"""R calls on shared arguments, and an R driver that runs sequences of them and measures what they leave behind."""
import os
import subprocess
import tempfile

from lib import rside

# arguments: made once per process, used by every call
ARGS = r'''
a <- list(
  one = array(c(1, 1, 1, 1), dim = c(2, 2)),
  seed = array(c(1, 2, 3, 4, 5, 6), dim = c(2, 3)),
  fits = array(c(1, 2, 3, 4), dim = c(2, 2)),
  zero = array(c(0, 1, 1, 1, 1, 0), dim = c(2, 3)),
  seed3 = array(1 + (1:12) / 7, dim = c(2, 3, 2)),
  i2 = list(1, 2), mi = list(c(3L, 6L), c(2L, 3L, 4L)), mn = list(c(3, 6), c(2, 3, 4)), bad = list(c(3, 6), c(2, 3, 3)),
  fit = list(c(4, 6), c(3, 7)),
  i3 = list(c(1, 2), c(2, 3)), m3 = list(array(c(1, 2, 3, 1, 0, 2), dim = c(2, 3)), array(c(2, 3, 1, 1, 1, 1), dim = c(3, 2))),
  it = list(c(1, 2), c(2, 3), c(1, 3, 4)), mt = list(array(c(1L, 0L, 0L, 1L), dim = c(2, 2)), array(c(0L, 1L, 1L, 0L), dim = c(2, 2)), array(c(0L, 1L, 0L, 0L, 0L, 0L, 1L, 0L), dim = c(2, 2, 2))),
  frac = array(c(1.5, 0.5, 0.5, 1.5), dim = c(2, 2)), odd = array(c(1.5, 0.5, 0.5, 1), dim = c(2, 2)),
  tab = array(c(1L, 0L, 2L, 3L), dim = c(2, 2)), named = c("x", "y"), p = c(0.1, 0.2, 0.3, 0.4),
  large = list(rep(40L, 40), rep(40L, 40)))
'''

OPS = [
    "ipf(a$seed, a$i2, a$mn)", "ipf(a$fits, a$i2, a$fit)", "ipf(a$one, a$i2, a$fit)", "ipf(a$seed3, a$i3, a$m3)", "ipf(a$zero, a$i2, a$mi)", "ipf(a$seed, a$i2, a$bad)", "ipf(-a$seed, a$i2, a$mn)",
    "qis(a$i2, a$mi)", "qis(a$i2, a$mn, 7L)", "qis(a$i3, a$m3)", "qis(a$it, a$mt)", "qis(a$i2, a$bad)", "qis(a$i2, a$mi, -1L)", "qis(a$i2, a$large)",
    "qisi(a$seed, a$i2, a$mi)", "qisi(a$zero, a$i2, a$mn, 3L)", "qisi(a$seed3, a$i3, a$m3)", "qisi(a$one, a$i2, a$mi)", "qisi(a$seed, a$i2, a$bad)",
    "integerise(a$frac)", "integerise(a$fits)", "integerise(a$odd)", "prob2IntFreq(a$p, 11L)", "prob2IntFreq(a$p, -1L)", "prob2IntFreq(a$fits, 3L)",
    "sobolSequence(3, 5)", "sobolSequence(3, 5, 4)", "sobolSequence(1111, 2)", "sobolSequence(1112, 2)", "flatten(a$tab, a$named)", "flatten(a$tab, 'x')", "flatten(-a$tab, a$named)",
]

HEAD = r'''
suppressPackageStartupMessages(library(humanleague, lib.loc=%r))
fs <- list(%s)
do <- function(i) tryCatch(fs[[i]](), error = function(e) structure(conditionMessage(e), class = "refused"))
'''


def script(text, timeout=600, env=None):
    """The lines that an R process printed which ran the text."""
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, "s.R")
        with open(f, "w") as h:
            h.write(HEAD % (rside.LIB, ",\n".join("function() %s" % o for o in OPS)) + ARGS + text)
        e = dict(os.environ)
        for v in ("R_LIBS", "R_LIBS_SITE", "R_PROFILE_USER", "LD_PRELOAD"):
            e.pop(v, None)
        e.update(env or {})
        p = subprocess.run(["Rscript", "--vanilla", f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, env=e, cwd=d)
    if p.returncode != 0 or not p.stdout.endswith("DONE\n"):
        if p.returncode in (0, 1):
            raise RuntimeError("R: %s %s" % (p.returncode, (p.stdout + p.stderr)[-2000:]))
        raise rside.Died(-1, "R ended with status %d after %s: %s" % (p.returncode, p.stdout[-200:], p.stderr[-500:]))
    return p.stdout.split("\n")[:-2]
