"""Pieces shared by the checks of the two samplers."""
import numpy as np

from lib import ref, scen


def lists(structure):
    return [list(i) for i in structure]


def dims_of(structure, marginals):
    D = 1 + max(max(i) for i in structure)
    sizes = [0] * D
    for idx, m in zip(structure, marginals):
        for p, d in enumerate(idx):
            sizes[d] = m.shape[p]
    return tuple(sizes)


def judge_population(ctx, what, structure, marginals, result, stats, must_conv):
    """The observable contract of a synthesised population."""
    sizes = dims_of(structure, marginals)
    pop = int(marginals[0].sum())
    result = np.asarray(result)
    ok = ctx.check(result.shape == sizes, lambda: "%s: shape %s, expected %s" % (what, result.shape, sizes))
    if not ok:
        return False
    ok &= ctx.check(np.issubdtype(result.dtype, np.integer), lambda: "%s: result is not integral: %s" % (what, result.dtype))
    ok &= ctx.check(int(result.min()) >= 0, lambda: "%s: negative count in %s" % (what, result.tolist()))
    ok &= ctx.check(int(result.sum()) == pop, lambda: "%s: %d individuals, expected %d" % (what, int(result.sum()), pop))
    ok &= ctx.check(stats["pop"] == pop, lambda: "%s: reported pop %r, expected %d" % (what, stats["pop"], pop))
    sat = ref.satisfied(result, structure, marginals)
    ok &= ctx.check(isinstance(stats["conv"], bool) and stats["conv"] == sat,
                    lambda: "%s: conv=%r but marginals %s: %s" % (what, stats["conv"], "met" if sat else "not met", result.tolist()))
    if must_conv:
        ok &= ctx.check(sat, lambda: "%s: no solution found although one is always reachable; got %s" % (what, result.tolist()))
    return bool(ok)


def joints_up_to(shape, totals, maxcell=None):
    """All arrays of the shape with a total in totals."""
    n = int(np.prod(shape))

    def rec(i, left, cur):
        if i == n - 1:
            if maxcell is None or left <= maxcell:
                yield cur + [left]
            return
        for v in range(min(left, maxcell if maxcell is not None else left) + 1):
            yield from rec(i + 1, left - v, cur + [v])

    for t in totals:
        for c in rec(0, t, []):
            yield np.array(c, dtype=np.int64).reshape(shape)


def distinct_marginals(joints, structure):
    seen = set()
    for j in joints:
        ms = scen.margs(j, structure)
        k = tuple(m.tobytes() for m in ms)
        if k not in seen:
            seen.add(k)
            yield ms


# structures for which whole choice trees are explored: D -> list
def tree_structures(tier):
    out = [(2, s) for n in (2, 3) for s in scen.structures(2, n)]
    out += [(3, s) for s in scen.structures(3, 2)]
    tri = [((0,), (1,), (2,)), ((2,), (0,), (1,)), ((0, 1), (1, 2), (2,)), ((0, 1), (1, 2), (0, 2)), ((2, 1), (1, 0), (0, 2)),
           ((0,), (0, 1), (1, 2)), ((2,), (2, 1), (1, 0)), ((0, 1, 2), (2, 1), (0,)), ((1, 2), (0, 1, 2), (2, 0, 1))]
    if tier == "thorough":
        tri = list(scen.structures(3, 3))
    return out + [(3, s) for s in tri]


def tree_problems(tier):
    """(structure, marginals) whose whole choice tree is explored."""
    for D, s in tree_structures(tier):
        if D == 2:
            plan = [((2, 2), (0, 1, 2, 3)), ((2, 3), (1, 2, 3)), ((3, 2), (3,)), ((1, 2), (2,)), ((2, 2), (4,))]
            if len(s) == 3:
                plan = [((2, 2), (0, 2, 3)), ((2, 3), (3,))]
            if tier == "thorough":
                plan += [((2, 2), (5,)), ((3, 3), (3, 4)), ((2, 4), (3, 4))]
        else:
            plan = [((2, 2, 2), (2,)), ((2, 1, 2), (3,)), ((1, 2, 3), (2,))]
            if tier == "thorough":
                plan += [((2, 2, 2), (3, 4)), ((2, 3, 2), (2, 3))]
        for shape, totals in plan:
            yield from ((s, ms) for ms in distinct_marginals(joints_up_to(shape, totals), s))
