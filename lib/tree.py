"""Exhaustive exploration of the quasirandom samplers' choices.

The environment of a sampler is the sequence of quasirandom points. For a pick among weights w_0..w_{n-1} with total
T, what matters about a coordinate u (a 32 bit integer) is only which interval [cum_{k-1}, cum_k) u*T/2^32 falls in;
so the choice tree has one branch per category with positive weight, and each branch is represented by the smallest
and the largest coordinate that select it. A path through the tree is a complete environment for one call, which is
then replayed against the real code through the verification hook.
"""
import numpy as np

from lib import ref


def interval(w, k):
    """The coordinates (lowest, highest) that pick category k of the integer weights w."""
    total = int(sum(int(v) for v in w))
    lo = int(sum(int(v) for v in w[:k]))
    hi = lo + int(w[k])
    lo = -((-lo << 32) // total)
    hi = -((-hi << 32) // total) - 1
    return max(lo, 1), hi      # the generator never produces 0


def qis_draws(indices, rem, D):
    """All outcomes of one draw: yields (state, lowest coordinates, highest coordinates)."""
    plan = []
    fixed = set()
    for m, idx in enumerate(indices):
        free = [p for p, d in enumerate(idx) if d not in fixed]
        if free:
            plan.append((m, idx, free))
        fixed |= set(idx)

    def rec(step, state, lo, hi):
        if step == len(plan):
            yield tuple(state), tuple(lo), tuple(hi)
            return
        m, idx, free = plan[step]
        sel = tuple(slice(None) if p in free else state[idx[p]] for p in range(len(idx)))
        yield from pick(step, rem[m][sel], idx, list(free), state, lo, hi)

    def pick(step, a, idx, free, state, lo, hi):
        if not free:
            yield from rec(step + 1, state, lo, hi)
            return
        p = free[-1]
        w = a.sum(axis=tuple(range(a.ndim - 1))) if a.ndim > 1 else a
        if (w < 0).any():
            return
        for k in range(len(w)):
            if w[k] > 0:
                l, h = interval(w, k)
                s2, l2, h2 = list(state), list(lo), list(hi)
                s2[idx[p]], l2[idx[p]], h2[idx[p]] = k, l, h
                yield from pick(step, a[..., k], idx, free[:-1], s2, l2, h2)

    yield from rec(0, [None] * D, [0] * D, [0] * D)


def qis_paths(indices, marginals, D, ctx=None):
    """All complete paths: yields (states, low stream, high stream, dead) where dead marks a path that cannot
    continue (no category has positive weight) although individuals remain."""
    pop = int(marginals[0].sum())
    cells = [None] * pop
    lows = np.zeros((pop, D), dtype=np.uint32)
    highs = np.zeros((pop, D), dtype=np.uint32)
    rem = [np.array(m, dtype=np.int64) for m in marginals]

    def rec(i):
        if ctx is not None:
            ctx.seen("states", (tuple(indices), tuple(m.tobytes() for m in rem), tuple(m.shape for m in rem)))
        if i == pop:
            yield list(cells), lows.copy(), highs.copy(), False
            return
        any_ = False
        for s, lo, hi in qis_draws(indices, rem, D):
            any_ = True
            if ctx is not None:
                ctx.n("transitions")
            cells[i] = s
            lows[i] = lo
            highs[i] = hi
            for idx, m in zip(indices, rem):
                m[tuple(s[d] for d in idx)] -= 1
            yield from rec(i + 1)
            for idx, m in zip(indices, rem):
                m[tuple(s[d] for d in idx)] += 1
        if not any_:
            yield list(cells[:i]), lows[:i].copy(), highs[:i].copy(), True

    yield from rec(0)


# ---------------------------------------------------------------- qisi

EPS = 1e-7


class QisiModel:
    """The transition system of qisi: the state is (IPF solution less what has been drawn, remaining marginals)."""

    def __init__(self, seed, indices, marginals):
        self.seed = np.array(seed, dtype=float)
        self.indices = [tuple(i) for i in indices]
        self.marginals = [np.array(m, dtype=np.int64) for m in marginals]
        self.cache = {}
        self.D = self.seed.ndim
        self.expect = self.solve(self.marginals)

    def solve(self, rem):
        k = tuple(m.tobytes() for m in rem)
        if k not in self.cache:
            self.cache[k] = ref.ipf_run(self.seed, self.indices, rem)[0]
        return self.cache[k]

    def start(self):
        return self.expect.copy(), [m.copy() for m in self.marginals]

    def weights(self, a):
        """of the last remaining dimension"""
        return a.sum(axis=tuple(range(a.ndim - 1))) if a.ndim > 1 else a

    def draws(self, sol):
        """Outcomes with a robust branch: yields (state, coordinates in the middle of their intervals)."""
        def rec(a, state, u):
            if a.ndim == 0:
                yield tuple(state), tuple(u)
                return
            d = a.ndim - 1
            w = self.weights(a)
            t = w.sum()
            if not t > 0:
                return
            run = 0.0
            for k in range(len(w)):
                if w[k] > EPS * t:
                    s2, u2 = list(state), list(u)
                    s2[d] = k
                    u2[d] = max(1, min((1 << 32) - 1, int((run + w[k] / 2) / t * 2.0 ** 32)))
                    yield from rec(a[..., k], s2, u2)
                run += w[k]

        yield from rec(sol, [None] * self.D, [0] * self.D)

    def draw(self, sol, u):
        """The states the coordinates u can pick: more than one if a coordinate is within rounding of a boundary."""
        def rec(a, state):
            if a.ndim == 0:
                yield tuple(state)
                return
            d = a.ndim - 1
            w = self.weights(a)
            cum = np.cumsum(w)
            t = cum[-1]
            if not t > 0:
                return
            r = float(u[d]) * 2.0 ** -32 * t
            eps = EPS * t
            lo = 0.0
            for k in range(len(w)):
                if lo - eps <= r <= cum[k] + eps:
                    s2 = list(state)
                    s2[d] = k
                    yield from rec(a[..., k], s2)
                lo = cum[k]

        return list(rec(sol, [None] * self.D))

    def step(self, sol, rem, state):
        """Takes one individual out. Returns ([possible solutions], remaining): where the expectation of the state comes
        down to zero within rounding, the implementation may or may not recompute. An empty list: rounding decides it all."""
        rem = [m.copy() for m in rem]
        for idx, m in zip(self.indices, rem):
            m[tuple(state[d] for d in idx)] -= 1
        ok = all((m >= 0).all() for m in rem)
        keep = sol.copy()
        keep[state] -= 1
        v = keep[state]
        new = []
        if v > -EPS:
            if abs(v) <= EPS:
                keep[state] = 0.0
            new.append(keep)
        if v < EPS:
            new.append(self.solve(rem).copy() if ok else self.expect.copy())
        out = []
        for x in new:
            if x[state] < -EPS:
                x = self.expect.copy()      # the recomputed solution does not help
            if not x.sum() > EPS * (1 + len(self.indices)):
                if x.any():
                    return [], rem           # residues of cancellation
                x = self.expect.copy()
            out.append(x)
        return out, rem

    def run(self, pts, limit=64):
        """All populations possible on these points: (number of individuals followed, [population arrays])."""
        sol, rem = self.start()
        front = {b"": (sol, rem, np.zeros(sol.shape, dtype=np.int64))}
        for i in range(len(pts)):
            nxt = {}
            last = i == len(pts) - 1
            for sol, rem, res in front.values():
                states = self.draw(sol, pts[i])
                if not states:
                    return i, [f[2] for f in front.values()]
                for s in states:
                    res2 = res.copy()
                    res2[s] += 1
                    sols, rem2 = ([sol], rem) if last else self.step(sol, rem, s)
                    if not sols:
                        return i, [f[2] for f in front.values()]
                    for x in sols:
                        nxt[(res2.tobytes(), b"" if last else np.round(x, 6).tobytes())] = (x, rem2, res2)
            if len(nxt) > limit:
                return i, [f[2] for f in front.values()]
            front = nxt
        return len(pts), [f[2] for f in front.values()]


def qisi_paths(model, ctx=None):
    """Points that realise every complete path: (states, coordinates)."""
    pop = int(model.marginals[0].sum())

    def rec(i, sol, rem, cells, pts):
        if ctx is not None:
            ctx.seen("states", (model.seed.tobytes(), model.indices, tuple(m.tobytes() for m in rem), np.round(sol, 9).tobytes()))
        if i == pop:
            yield list(cells), np.array(pts, dtype=np.uint32).reshape(pop, model.D)
            return
        for s, u in model.draws(sol):
            if ctx is not None:
                ctx.n("transitions")
            sols, rem2 = ([sol], rem) if i == pop - 1 else model.step(sol, rem, s)
            if not sols and ctx is not None:
                ctx.n("cut")
            # where the implementation has a choice, follow the recomputation: its branches include the others'
            if sols:
                yield from rec(i + 1, sols[-1], rem2, cells + [s], pts + [u])

    sol, rem = model.start()
    yield from rec(0, sol, rem, [], [])
