"""Reference computations in float64 with numpy only (written from the documented definitions)."""

import numpy as np


def frac(b, v):
    return np.asarray(v, dtype=np.float64) @ b.Minv.T


def wrap(b, v):
    """Wraps vectors into the box along its periodic axes (z is untouched in 2D)."""
    v = np.atleast_2d(np.asarray(v, dtype=np.float64))
    f = v @ b.Minv.T + 0.5
    n = np.floor(f)
    for k in range(3):
        if not b.periodic[k] or (k == 2 and b.is2D):
            n[:, k] = 0
    return v - n @ b.M.T


def pairs(b, P, Q):
    """All (query index, point index, wrapped point - query point, distance), sorted by query, point."""
    P = np.asarray(P, dtype=np.float64)
    Q = np.asarray(Q, dtype=np.float64)
    nq, n_p = len(Q), len(P)
    I = np.repeat(np.arange(nq), n_p)
    J = np.tile(np.arange(n_p), nq)
    V = wrap(b, P[J] - Q[I]) if nq * n_p else np.zeros((0, 3))
    return I, J, V, np.sqrt((V ** 2).sum(axis=1))


def ambiguous(b, P, Q, eps=1e-5):
    """Whether a separation is half the box along a lattice direction of a tilted box (either image may be taken)."""
    if b.ortho:
        return False
    P = np.asarray(P, dtype=np.float64)
    Q = np.asarray(Q, dtype=np.float64)
    f = (P[None] - Q[:, None]).reshape(-1, 3) @ b.Minv.T
    f = f[:, :b.dims]
    return bool(np.any(np.abs(np.abs(f - np.rint(f)) - 0.5) < eps))


def min_image(b, v, shells=2):
    """The true minimum image distance over a range of lattice vectors."""
    w = wrap(b, v)
    best = np.full(len(w), np.inf)
    rng = range(-shells, shells + 1)
    for i in rng:
        for j in rng:
            for k in (rng if not b.is2D else (0,)):
                s = b.M @ np.array([i, j, k], dtype=float)
                best = np.minimum(best, ((w + s) ** 2).sum(axis=1))
    return np.sqrt(best)


# -- quaternions -------------------------------------------------------------------------------

def qmul(a, b):
    a = np.asarray(a, dtype=np.float64)
    b = np.asarray(b, dtype=np.float64)
    w = a[..., 0] * b[..., 0] - a[..., 1] * b[..., 1] - a[..., 2] * b[..., 2] - a[..., 3] * b[..., 3]
    x = a[..., 0] * b[..., 1] + a[..., 1] * b[..., 0] + a[..., 2] * b[..., 3] - a[..., 3] * b[..., 2]
    y = a[..., 0] * b[..., 2] - a[..., 1] * b[..., 3] + a[..., 2] * b[..., 0] + a[..., 3] * b[..., 1]
    z = a[..., 0] * b[..., 3] + a[..., 1] * b[..., 2] - a[..., 2] * b[..., 1] + a[..., 3] * b[..., 0]
    return np.stack([w, x, y, z], axis=-1)


def qconj(a):
    return np.asarray(a, dtype=np.float64) * np.array([1, -1, -1, -1.0])


def qrot(q, v):
    q = np.asarray(q, dtype=np.float64)
    v = np.asarray(v, dtype=np.float64)
    q, v4 = np.broadcast_arrays(q, np.concatenate([np.zeros(v.shape[:-1] + (1,)), v], axis=-1)) \
        if q.ndim == v.ndim or q.ndim == 1 else (q, np.concatenate([np.zeros(v.shape[:-1] + (1,)), v], axis=-1))
    return qmul(qmul(q, v4), qconj(q))[..., 1:]


def tol(b):
    """Absolute tolerance on float32 coordinates and distances in the box."""
    return 2e-6 * b.scale + 1e-12


# -- binning -----------------------------------------------------------------------------------

class HistRef:
    """Counts with uncertainty: per bin the number of values certainly in it and those near one of its edges."""

    def __init__(self, edges, values, weights=None, tols=1e-5, periodic=None):
        edges = [np.asarray(e, dtype=np.float64) for e in edges]
        self.shape = tuple(len(e) - 1 for e in edges)
        values = np.asarray(values, dtype=np.float64).reshape(-1, len(edges))
        tols = [tols] * len(edges) if np.isscalar(tols) else tols
        n = len(values)
        lo_idx, hi_idx = [], []
        for k, e in enumerate(edges):
            x = values[:, k]
            t = np.broadcast_to(np.asarray(tols[k], dtype=float), x.shape)
            a = np.searchsorted(e, x - t, side="right") - 1
            b = np.searchsorted(e, x + t, side="right") - 1
            lo_idx.append(a)
            hi_idx.append(b)
        self.certain = np.zeros(self.shape)
        self.possible = np.zeros(self.shape)
        self.n_certain = 0
        self.n_ambiguous = 0
        sh = self.shape
        exact = np.ones(n, dtype=bool)
        for k in range(len(edges)):
            exact &= lo_idx[k] == hi_idx[k]
        w = np.ones(n) if weights is None else np.asarray(weights)
        inside = exact.copy()
        for k in range(len(edges)):
            inside &= (lo_idx[k] >= 0) & (lo_idx[k] < sh[k])
        if inside.any():
            np.add.at(self.certain, tuple(a[inside] for a in lo_idx), w[inside])
        for i in np.nonzero(~exact)[0]:
            import itertools

            rngs = []
            for k in range(len(edges)):
                c = [int(v) for v in range(lo_idx[k][i], hi_idx[k][i] + 1)]
                if periodic is not None and periodic[k]:
                    c = [v % sh[k] for v in c]
                rngs.append([v for v in set(c) if 0 <= v < sh[k]])
            for t in itertools.product(*rngs):
                self.possible[t] += w[i]
        self.n_ambiguous = int((~exact).sum())
        self.inside = inside
        self.exact = exact
        self.total = n

    def check(self, counts):
        """None, or a description of how counts contradict the reference."""
        counts = np.asarray(counts, dtype=np.float64)
        if counts.shape != self.shape:
            return f"shape {counts.shape}, expected {self.shape}"
        low = self.certain - 1e-9
        high = self.certain + self.possible + 1e-9
        bad = (counts < low) | (counts > high)
        if bad.any():
            i = tuple(np.argwhere(bad)[0])
            return (f"{int(bad.sum())} bins wrong, e.g. bin {tuple(int(x) for x in i)}: got {counts[i]}, "
                    f"expected {self.certain[i]} to {high[i]:.3g}")
        tot = counts.sum()
        if tot < self.certain.sum() - 1e-6 or tot > self.certain.sum() + self.n_ambiguous + 1e-6:
            return f"total {tot}, expected {self.certain.sum()} (+{self.n_ambiguous})"
        return None
