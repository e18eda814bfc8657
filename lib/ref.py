"""Reference models. Deliberately plain; they share no code with the implementation.

* project / consistency: what a marginal is
* the quasirandom samplers as transition systems over (remaining marginals)
* IPF, chi-squared statistic and survival function
* the Sobol sequence by direct evaluation of its definition (any index, no state)
"""
import json
import math
import os

import numpy as np

HERE = os.path.dirname(os.path.abspath(__file__))


def project(joint, index):
    """The marginal of joint over the dimensions in index, with axes in that order."""
    index = list(index)
    other = tuple(d for d in range(joint.ndim) if d not in index)
    s = joint.sum(axis=other) if other else joint
    # remaining axes are sorted(index); reorder
    rank = sorted(index)
    return np.ascontiguousarray(np.transpose(s, [rank.index(d) for d in index]))


def satisfied(result, indices, marginals):
    return all(np.array_equal(project(result, i), m) for i, m in zip(indices, marginals))


def running_intersection(indices):
    """The dimensions each marginal shares with those before it all belong to one of them."""
    for k, idx in enumerate(indices):
        before = set().union(*indices[:k]) if k else set()
        s = set(idx) & before
        if s and not any(s <= set(e) for e in indices[:k]):
            return False
    return True


# ---------------------------------------------------------------- Sobol

class SobolRef:
    """x_n by definition: the XOR of the direction numbers selected by the Gray code of n."""
    _V = None

    @classmethod
    def table(cls):
        if cls._V is None:
            with open(os.path.join(HERE, "..", "data", "joe_kuo.json")) as f:
                t = json.load(f)
            D = len(t["poly"]) + 1
            m = np.zeros((32, D), dtype=np.uint64)
            m[:, 0] = 1
            for i, poly in enumerate(t["poly"], 1):
                deg = poly.bit_length() - 1
                init = t["minit"][i - 1]
                assert len(init) == deg
                col = list(init)
                for j in range(deg, 32):
                    # m_j = 2 a_1 m_{j-1} ^ 4 a_2 m_{j-2} ^ ... ^ 2^d m_{j-d} ^ m_{j-d}
                    v = col[j - deg]
                    for k in range(1, deg + 1):
                        # coefficient of x^(deg-k) in poly
                        if (poly >> (deg - k)) & 1:
                            v ^= col[j - k] << k
                    col.append(v)
                m[:, i] = col
            cls._V = np.array([(m[j] << np.uint64(31 - j)) & np.uint64(0xFFFFFFFF) for j in range(32)]).astype(np.uint32)
        return cls._V

    @classmethod
    def point(cls, n, dim):
        """The n-th point (n=0 is the origin, which the generator omits)."""
        g = n ^ (n >> 1)
        V = cls.table()
        x = np.zeros(dim, dtype=np.uint32)
        j = 0
        while g:
            if g & 1:
                x ^= V[j, :dim]
            g >>= 1
            j += 1
        return x

    @classmethod
    def points(cls, start, count, dim):
        """Points start .. start+count-1 as a (count, dim) array."""
        out = np.empty((count, dim), dtype=np.uint32)
        V = cls.table()
        x = cls.point(start, dim)
        for i in range(count):
            out[i] = x
            n = start + i
            c = ((n + 1) & -(n + 1)).bit_length() - 1  # the bit of the Gray code that changes next
            if c < 32:
                x = x ^ V[c, :dim]
        return out


def skipped(n):
    """How many points are skipped when asked to skip n: the largest power of two smaller than n (1 for 1, none for 0)."""
    if n == 0:
        return 0
    k = 1
    while 2 * k < n:
        k *= 2
    return k


# ---------------------------------------------------------------- the samplers as transition systems

def invert_cdf(weights, u):
    """Smallest k with u * total < cumulative(k), for an exact integer u in [0, 2^32): returns None if there is none."""
    total = int(sum(weights))
    run = 0
    for k, w in enumerate(weights):
        run += int(w)
        if int(u) * total < run << 32:
            return k
    return None


def qis_draw(indices, remaining, u, D):
    """One individual: visits the marginals in order; in each one fixes the dimensions not yet fixed, last to first.
    Returns the state, or None if the draw is impossible."""
    state = [None] * D
    for idx, m in zip(indices, remaining):
        free = [p for p, d in enumerate(idx) if state[d] is None]
        if not free:
            continue
        sel = tuple(slice(None) if state[d] is None else state[d] for d in idx)
        a = m[sel]
        for p in reversed(free):
            w = a.sum(axis=tuple(range(a.ndim - 1))) if a.ndim > 1 else a
            k = invert_cdf(w, u[idx[p]])
            if k is None:
                return None
            state[idx[p]] = k
            a = a[..., k]
    return tuple(state)


def qis_run(indices, marginals, points, D):
    """points: (pop, D) ints. Returns (result, conv) or None if sampling fails."""
    sizes = [0] * D
    for idx, m in zip(indices, marginals):
        for p, d in enumerate(idx):
            sizes[d] = m.shape[p]
    rem = [np.array(m, dtype=np.int64) for m in marginals]
    pop = int(rem[0].sum())
    res = np.zeros(sizes, dtype=np.int64)
    conv = True
    for i in range(pop):
        s = qis_draw(indices, rem, points[i], D)
        if s is None:
            return None
        res[s] += 1
        for idx, m in zip(indices, rem):
            c = tuple(s[d] for d in idx)
            m[c] -= 1
            if m[c] < 0:
                conv = False
    return res, conv


# ---------------------------------------------------------------- IPF

def expand(values, index, D):
    """Broadcasts an array over the dimensions in index to D dimensions."""
    order = np.argsort(index)
    v = np.transpose(values, order)
    shape = [1] * D
    for d in range(len(index)):
        shape[index[order[d]]] = v.shape[d]
    return v.reshape(shape)


def ipf_run(seed, indices, marginals, iters=1000, tol=1e-8):
    x = np.array(seed, dtype=float)
    D = x.ndim
    e = math.inf
    for it in range(1, iters + 1):
        prev = x
        for idx, m in zip(indices, marginals):
            r = project(x, idx)
            with np.errstate(divide="ignore", invalid="ignore"):
                f = np.where(r != 0, m / np.where(r != 0, r, 1), 0.0)
            x = x * expand(f, idx, D)
        e = max(float(np.max(np.abs(project(x, idx) - m))) for idx, m in zip(indices, marginals))
        if e < tol:
            return x, True, it, e
        if np.abs(x - prev).max() <= 1e-15 * max(1.0, np.abs(x).max()):
            break       # a fixed point that is not a solution: the remaining iterations change nothing
    return x, False, iters, e


def max_error(x, indices, marginals):
    return max(float(np.max(np.abs(project(x, idx) - m))) for idx, m in zip(indices, marginals))


# ---------------------------------------------------------------- statistics

def chi2_stat(sample, expected):
    s = np.asarray(sample, dtype=float).ravel()
    e = np.asarray(expected, dtype=float).ravel()
    keep = ~((s == 0) & (e == 0))
    with np.errstate(divide="ignore"):
        return float(((s[keep] - e[keep]) ** 2 / e[keep]).sum())


def chi2_sf(x, k):
    """P(X > x) for a chi-squared variable with k (integer) degrees of freedom, by the finite closed forms."""
    if k == 0:
        return 1.0      # nothing is tested
    if x <= 0:
        return 1.0
    h = x / 2.0
    if k % 2 == 0:
        # exp(-h) * sum_{i<k/2} h^i/i!
        terms = [i * math.log(h) - h - math.lgamma(i + 1) for i in range(k // 2)]
        return min(1.0, math.fsum(math.exp(t) for t in terms))
    terms = [(i - 0.5) * math.log(h) - h - math.lgamma(i + 0.5) for i in range(1, (k + 1) // 2)]
    return min(1.0, math.erfc(math.sqrt(h)) + math.fsum(math.exp(t) for t in terms))


def dof(shape):
    r = 1
    for s in shape:
        r *= s - 1
    return r
