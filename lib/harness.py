"""The exploration driver shared by all checks.

A check is a list of stages. A stage enumerates cases in a fixed order (simplest first) and runs each of them
against the real code; the cases are dealt round-robin to one forked worker per core, so that a run is
deterministic, a crash of the code under test kills a worker and not the check, and a call that never returns is
noticed. Every failure is replayed in a fresh process before it is reported.
"""
import collections
import hashlib
import json
import mmap
import os
import pickle
import select
import signal
import struct
import sys
import time
import traceback

from lib import hl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
NPROC = os.cpu_count() or 4
MAX_FAILS = 5


def h64(obj):
    return int.from_bytes(hashlib.blake2b(repr(obj).encode(), digest_size=8).digest(), "little")


class Stage:
    def __init__(self, name, gen, run, limit=60.0, setup=None, workers=None, hook=False):
        """hook: the stage supplies points through the verification hook, and is left out (and reported so) without it"""
        # quick runs must report an endless loop (found after the limit, confirmed by a second run) well within 900 s
        self.name, self.gen, self.run, self.limit, self.setup, self.hook = name, gen, run, min(limit, 150.0) if TIER == "quick" else limit, setup, hook
        self.workers = workers or NPROC


class Ctx:
    def __init__(self):
        self.counts = collections.Counter()
        self.sets = collections.defaultdict(set)
        self.samples = []
        self.notes = {}
        self.fails = []
        self.where = None

    def n(self, name, k=1):
        self.counts[name] += k

    def seen(self, name, obj):
        self.sets[name].add(h64(obj))

    def sample(self, obj, cap=2):
        if len(self.samples) < cap:
            self.samples.append(obj)

    def fail(self, msg, key=None):
        self.fails.append((msg, key))

    def check(self, cond, msg, key=None):
        if not cond:
            self.fail(msg() if callable(msg) else msg, key)
        return cond


class Truncated(Exception):
    pass


def _run_case(stage, case, ctx):
    try:
        stage.run(case, ctx)
    except (KeyboardInterrupt, MemoryError):
        raise
    except Exception:
        ctx.fail("unexpected exception\n" + traceback.format_exc(limit=-6))


def _nth(stage, idx):
    for i, c in enumerate(stage.gen()):
        if i == idx:
            return c
    raise IndexError(idx)


def show(obj, cap=1500):
    s = repr(obj)
    return s if len(s) <= cap else s[:cap] + "..."


class _Pool:
    """Runs one stage over forked workers."""

    def __init__(self, stage, deadline):
        self.stage, self.deadline = stage, deadline
        self.n = stage.workers
        self.shm = mmap.mmap(-1, 32 * self.n)
        self.total = Ctx()
        self.fails = []      # (idx, case repr, msg, key, history)
        self.cases = 0
        self.slowest = 0.0
        self.truncated = False

    def _put(self, w, idx, t):
        struct.pack_into("qd", self.shm, 32 * w, idx, t)

    def _get(self, w):
        return struct.unpack_from("qd", self.shm, 32 * w)

    def _worker(self, w, start, fd):
        ctx = Ctx()
        done = 0
        fails = []
        truncated = False
        slowest = 0.0
        if self.stage.setup:
            self.stage.setup()
        for i, case in enumerate(self.stage.gen()):
            if i % self.n != w or i < start:
                continue
            now = time.monotonic()
            if now > self.deadline:
                truncated = True
                break
            self._put(w, i, now)
            _run_case(self.stage, case, ctx)
            done += 1
            slowest = max(slowest, time.monotonic() - now)
            if ctx.fails:
                for msg, key in ctx.fails:
                    fails.append((i, show(case), msg, key, (w, start)))
                ctx.fails = []
                if len(fails) >= MAX_FAILS and any(f[3] is None for f in fails):
                    break
        self._put(w, -2, time.monotonic())
        out = pickle.dumps((dict(ctx.counts), {k: v for k, v in ctx.sets.items()}, ctx.samples, ctx.notes, done, fails, truncated, slowest))
        with os.fdopen(fd, "wb") as f:
            f.write(out)

    def _spawn(self, w, start):
        self._put(w, -1, time.monotonic())
        r, wr = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                signal.signal(signal.SIGINT, signal.SIG_DFL)
                self._worker(w, start, wr)
            except BaseException:
                traceback.print_exc()
                code = 77
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        os.close(wr)
        return dict(pid=pid, fd=r, buf=[], w=w, start=start, eof=False)

    def run(self):
        live = {}
        for w in range(self.n):
            p = self._spawn(w, 0)
            live[p["fd"]] = p
        bad = 0
        while live:
            rd, _, _ = select.select(list(live), [], [], 0.2)
            for fd in rd:
                p = live[fd]
                d = os.read(fd, 1 << 16)
                if d:
                    p["buf"].append(d)
                    continue
                os.close(fd)
                del live[fd]
                _, st = os.waitpid(p["pid"], 0)
                if p["buf"] and os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0:
                    self._merge(pickle.loads(b"".join(p["buf"])))
                else:
                    idx, _t = self._get(p["w"])
                    if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 77:
                        raise RuntimeError("harness error in worker %d of stage %s (case %d)" % (p["w"], self.stage.name, idx))
                    how = "killed by signal %d" % os.WTERMSIG(st) if os.WIFSIGNALED(st) else "exit status %d" % os.WEXITSTATUS(st)
                    if p.get("timeout"):
                        how = "no answer within %.0f s" % self.stage.limit
                    self.fails.append((idx, None, "the process died while running this case: " + how, None, (p["w"], p["start"])))
                    bad += 1
                    if bad < 3 and idx >= 0 and not p.get("timeout"):
                        q = self._spawn(p["w"], idx + 1)
                        live[q["fd"]] = q
            now = time.monotonic()
            for p in live.values():
                idx, t = self._get(p["w"])
                # seen twice with the same time stamp: a read may fall into the middle of a write
                if idx >= 0 and t > 0 and now - t > self.stage.limit and not p.get("timeout"):
                    if p.get("late") == (idx, t):
                        p["timeout"] = True
                        os.kill(p["pid"], signal.SIGKILL)
                    p["late"] = (idx, t)
        return self

    def _merge(self, m):
        counts, sets, samples, notes, done, fails, truncated, slowest = m
        self.total.counts.update(counts)
        for k, v in sets.items():
            self.total.sets[k] |= v
        self.total.samples += samples
        self.total.notes.update(notes)
        self.cases += done
        self.fails += fails
        self.truncated |= truncated
        self.slowest = max(self.slowest, slowest)


def _alone(stage, first, idx, step, limit):
    """Runs the cases first, first+step, ... idx in a fresh process; returns the failures of the last one."""
    r, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            if stage.setup:
                stage.setup()
            ctx = Ctx()
            case = None
            for i, case in enumerate(stage.gen()):
                if i > idx:
                    break
                if i >= first and (i - first) % step == 0:
                    ctx.fails = []
                    _run_case(stage, case, ctx)
                    if i == idx:
                        break
            with os.fdopen(wr, "wb") as f:
                f.write(pickle.dumps((show(case, 20000), ctx.fails)))
        except BaseException:
            traceback.print_exc()
        finally:
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(0)
    os.close(wr)
    buf = []
    end = time.monotonic() + limit
    while True:
        rd, _, _ = select.select([r], [], [], max(0, end - time.monotonic()))
        if not rd:
            os.kill(pid, signal.SIGKILL)
            os.close(r)
            os.waitpid(pid, 0)
            return None, [("no answer within %.0f s (run alone)" % limit, None)]
        d = os.read(r, 1 << 16)
        if not d:
            break
        buf.append(d)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if buf:
        return pickle.loads(b"".join(buf))
    return None, [("the process died: status %d" % st, None)]


def known_findings(pid):
    known = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("KNOWN-FINDING: property=%s " % pid):
                rest = line.split(" ", 2)[2].strip()
                key = rest.split("]", 1)[0].lstrip("[")
                known[key] = rest
    return known


def run_check(pid, stages, level, summarise, replay=None, assumptions=(), exhaustive=True, pre_notes=None):
    """summarise(total counters, sets, samples) -> the evidence's coverage record."""
    t0 = time.monotonic()
    if replay:
        rec = json.load(open(replay))
        st = next(s for s in stages if s.name == rec["stage"])
        case, fails = _alone(st, rec["first"], rec["index"], rec["step"], st.limit * 4)
        print("case:", case)
        for m, _k in fails:
            print("FAILS:", m)
        if not fails:
            print("the case passes")
        return 1 if fails else 0

    deadline = t0 + float(os.environ.get("HL_DEADLINE", "600" if TIER == "quick" else "36000"))
    total = Ctx()
    per_stage = {}
    reported = []
    knowns = known_findings(pid)
    known_hit = {}
    truncated = False
    if pre_notes:
        total.notes.update(pre_notes)
    for st in stages:
        if st.hook and not hl.hooked():
            total.notes["left out"] = "stages that need the verification hook, which this tree does not have"
            per_stage[st.name] = {"cases": 0, "wall_s": 0.0, "truncated": True}
            truncated = True
            continue
        ts = time.monotonic()
        pool = _Pool(st, deadline).run()
        total.counts.update(pool.total.counts)
        for k, v in pool.total.sets.items():
            total.sets[k] |= v
        total.samples += [{"stage": st.name, "case": s} for s in pool.total.samples[:3]]
        total.notes.update(pool.total.notes)
        truncated |= pool.truncated
        per_stage[st.name] = {"cases": pool.cases, "wall_s": round(time.monotonic() - ts, 2), "truncated": pool.truncated, "slowest_case_s": round(pool.slowest, 2)}
        for idx, case, msg, key, (w, start) in sorted(pool.fails, key=lambda f: ("no answer within" in f[2], f[0])):
            if key is not None and key in knowns:
                known_hit[key] = msg
                continue
            # replay before report: alone first, then with everything its worker had run before it
            if reported and "no answer within" in msg:
                break
            again = st.limit * 3 if TIER != "quick" else max(st.limit, min(st.limit * 3, 780 - (time.monotonic() - t0)))
            rcase, fails = _alone(st, idx, idx, 1, again) if idx >= 0 else (None, [])
            if not rcase and not case and idx >= 0:
                case = show(_nth(st, idx), 20000)
            rec = dict(property=pid, stage=st.name, index=idx, first=idx, step=1, case=rcase or case, message=msg)
            if not fails:
                if "no answer within" in msg:
                    print("note: %s case %d answered when re-run alone with a longer limit" % (st.name, idx))
                    continue
                first = idx % st.workers
                rec.update(first=first, step=st.workers,
                           message=msg + "\n(passes when run alone: depends on what ran before it in the same process)")
            else:
                rec["message"] = fails[0][0]
            reported.append(rec)
            if len(reported) >= MAX_FAILS:
                break
        if reported:
            break

    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    cov = summarise(total)
    cov["samples"] = [x if len(json.dumps(x, default=str)) <= 3000 else show(x, 3000) for x in cov.get("samples", [])]
    cov["stages"] = per_stage
    cov["exhaustive"] = bool(exhaustive and not truncated and not reported)
    if total.notes:
        cov["notes"] = total.notes
    ev = dict(property=pid, tier=TIER, seed=SEED, level=level, coverage=cov, assumptions=list(assumptions),
              wall_s=round(time.monotonic() - t0, 2), violations=len(reported))
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)

    for k in sorted(knowns):
        # a listed finding is announced whether or not this tier reached its input
        print("KNOWN-FINDING: property=%s %s" % (pid, knowns[k]) + ("" if k in known_hit else " (not reached by this run)"))
    if reported:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        for i, rec in enumerate(reported):
            path = os.path.join(VERIF, "replays", "%s-%d.json" % (pid, i))
            rec["replay_cmd"] = "/opt/vp/venv/bin/python /verif/check.py %s --replay %s" % (pid, path)
            with open(path, "w") as f:
                json.dump(rec, f, indent=1)
            print("case:", show(rec["case"], 600))
            print(rec["message"])
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("%s: held on everything explored: %s" % (pid, json.dumps({k: v for k, v in cov.items() if isinstance(v, (int, bool))})))
    for n, s in per_stage.items():
        print("  stage %-28s %8d cases %7.1f s (slowest %.2f s)%s" % (n, s["cases"], s["wall_s"], s.get("slowest_case_s", 0), "  TRUNCATED" if s["truncated"] else ""))
    return 0
