"""Generators of boxes, points, orientations and query specifications."""

import numpy as np

from .engine import Discard
from . import ref

f32 = np.float32


class BoxSpec:
    """A box described independently of freud (float64 arithmetic on the float32 parameters)."""

    def __init__(self, Lx, Ly, Lz, xy=0.0, xz=0.0, yz=0.0, is2D=False, periodic=(True, True, True), kind=""):
        self.Lx, self.Ly, self.Lz = (float(f32(v)) for v in (Lx, Ly, Lz))
        self.xy, self.xz, self.yz = (float(f32(v)) for v in (xy, xz, yz))
        self.is2D = bool(is2D)
        self.periodic = tuple(bool(p) for p in periodic)
        self.kind = kind
        lz = self.Lz if not self.is2D else 1.0
        self.M = np.array([[self.Lx, self.xy * self.Ly, (self.xz * lz) if not self.is2D else 0.0],
                           [0, self.Ly, (self.yz * lz) if not self.is2D else 0.0],
                           [0, 0, lz]], dtype=np.float64)
        self.Minv = np.linalg.inv(self.M)
        self.dims = 2 if self.is2D else 3
        rows = self.Minv[:self.dims, :self.dims]
        self.plane = 1.0 / np.sqrt((rows ** 2).sum(axis=1))
        self.rhalf = float(self.plane.min()) / 2
        self.ortho = self.xy == 0 and self.xz == 0 and self.yz == 0
        self.volume = float(np.linalg.det(self.M[:self.dims, :self.dims]))
        # magnitude of the numbers float32 rounding acts on
        self.scale = float(np.abs(self.M[:self.dims, :self.dims]).sum())

    def make(self):
        import freud

        b = freud.box.Box(self.Lx, self.Ly, 0 if self.is2D and self.Lz == 0 else self.Lz, self.xy, self.xz, self.yz,
                          is2D=self.is2D)
        if self.periodic != (True, True, True):
            b.periodic = self.periodic
        return b

    @property
    def fb(self):
        if not hasattr(self, "_fb"):
            self._fb = self.make()
        return self._fb

    def desc(self):
        return {"L": [self.Lx, self.Ly, self.Lz], "tilt": [self.xy, self.xz, self.yz], "is2D": self.is2D,
                "periodic": list(self.periodic)}


def box(d, dims=None, kinds=None, Lmin=2.0, Lmax=16.0, wide=True):
    """A periodic box. kinds is a subset of cubic, ortho, mild, strong."""
    kinds = kinds or ("cubic", "ortho", "mild", "strong")
    is2D = d.bool() if dims is None else (dims == 2)
    kind = d.choice(kinds)
    if wide and d.bool(6):
        s = d.choice((0.1, 30.0, 200.0))
    else:
        s = 1.0

    def length():
        return d.choice((10.0, 8.0, 5.0)) if d.bool(3) else round(d.float(Lmin, Lmax), 3)

    L = length()
    if kind == "cubic":
        Ls = [L, L, L]
    elif d.bool(8):
        Ls = [L, L, L]
        Ls[d.draw(2)] = L * d.choice((3.0, 6.0))
    else:
        Ls = [L, length(), length()]
    t = [0.0, 0.0, 0.0]
    if kind in ("mild", "strong"):
        m = 0.6 if kind == "mild" else 1.7
        for i in range(1 if is2D else 3):
            # grid of tilts plus 0, so that single tilts are common
            t[i] = 0.0 if d.bool(4) else round(d.float(-m, m), 2)
    Ls = [v * s for v in Ls]
    if is2D:
        Ls[2] = 0.0
    return BoxSpec(Ls[0], Ls[1], Ls[2], *t, is2D=is2D, kind=kind)


STYLES = ("uniform", "cluster", "lattice", "faces", "dups")


def frac_points(d, n, dims, style):
    """n fractional coordinates in [0, 1)."""
    if n == 0:
        return np.zeros((0, 3))
    bulk = n > 10
    g = d.rng() if bulk else None

    def u():
        return g.random() if bulk else d.unit()

    def k(hi):
        return int(g.integers(0, hi + 1)) if bulk else d.draw(hi)

    F = np.zeros((n, 3))
    if style == "cluster":
        nc = 1 + d.draw(3)
        w = d.choice((0.02, 0.1, 0.3))
        C = np.array([[u() for _ in range(3)] for _ in range(nc)])
        for i in range(n):
            c = C[k(nc - 1)]
            F[i] = [(c[j] + w * (u() - 0.5)) % 1.0 for j in range(3)]
    elif style == "lattice":
        m = d.choice((2, 3, 4, 5, 8))
        for i in range(n):
            F[i] = [k(m - 1) / m for _ in range(3)]
    elif style == "faces":
        for i in range(n):
            F[i] = [(0.0, 0.5, 0.999, 0.001)[k(3)] if k(2) == 0 else u() for _ in range(3)]
    else:
        for i in range(n):
            F[i] = [u() for _ in range(3)]
        if style == "dups":
            for i in range(1, n):
                if k(3) == 0:
                    F[i] = F[k(i - 1)]
    F[:, dims:] = 0.5
    return F


def points(d, b, n, style=None, wrap=True):
    """n float32 points inside the box b."""
    style = style or d.weighted((4, "uniform"), (2, "cluster"), (2, "lattice"), (2, "faces"), (1, "dups"))
    d.label("pts:" + style)
    F = frac_points(d, n, b.dims, style)
    return from_frac(b, F)


def from_frac(b, F):
    r = (np.asarray(F) - 0.5) @ b.M.T
    if b.is2D:
        r[:, 2] = 0
    r = np.ascontiguousarray(r.astype(f32))
    if len(r) and not b.ortho:
        r = np.asarray(b.fb.wrap(r))
        if b.is2D:
            r[:, 2] = 0
    return r


def npts(d, lo=1, hi=60, bulk=True):
    """A number of points, mostly small; sometimes many.

    TBB divides loops of few iterations into chunks of one: only with more points than about 4 per thread does
    one chunk process two of them."""
    if d.bool(6) and bulk and hi > 12:
        if hi >= 30 and d.bool(4):
            return d.int(hi, min(5 * hi, 200))
        return d.int(12, hi)
    return d.int(lo, max(lo, min(hi, 10)))


class System:
    def __init__(self, b, P, Q, same):
        self.b, self.P, self.Q, self.same = b, P, Q, same

    def desc(self):
        return {"box": self.b.desc(), "points": self.P, "query_points": None if self.same else self.Q}


def system(d, dims=None, kinds=None, nmin=1, nmax=60, query=None, wide=True, style=None, Lmin=2.0, Lmax=16.0):
    b = box(d, dims=dims, kinds=kinds, wide=wide, Lmin=Lmin, Lmax=Lmax)
    P = points(d, b, npts(d, nmin, nmax), style)
    same = d.bool() if query is None else not query
    if same:
        Q = P
    else:
        Q = points(d, b, npts(d, nmin, nmax), style)
        if len(Q) == len(P) and d.bool(3):
            # partially coincident with the points
            m = min(len(P), len(Q))
            Q[: m // 2] = P[: m // 2]
    s = System(b, P, Q, same)
    d.note(**s.desc())
    d.label("2D" if b.is2D else "3D", b.kind)
    return s


def unit_quat(d):
    """A unit quaternion, with special ones common."""
    s = np.sqrt(0.5)
    if d.bool(4):
        return np.array(d.choice(((1, 0, 0, 0), (0, 0, 0, 1), (0, 1, 0, 0), (s, 0, 0, s), (s, s, 0, 0),
                                  (-1, 0, 0, 0), (0.5, 0.5, 0.5, 0.5))), dtype=float)
    u1, u2, u3 = d.unit(), d.unit(), d.unit()
    return np.array([np.sqrt(1 - u1) * np.sin(2 * np.pi * u2), np.sqrt(1 - u1) * np.cos(2 * np.pi * u2),
                     np.sqrt(u1) * np.sin(2 * np.pi * u3), np.sqrt(u1) * np.cos(2 * np.pi * u3)])


def quats(d, n):
    """(n, 4) float32 unit quaternions."""
    if n > 8:
        g = d.rng()
        q = g.normal(size=(n, 4))
        q /= np.linalg.norm(q, axis=1, keepdims=True)
        return q.astype(f32)
    return np.array([unit_quat(d) for _ in range(n)], dtype=f32).reshape(n, 4)


def angles(d, n, lo=-7.0, hi=7.0):
    if n > 10:
        return d.rng().uniform(lo, hi, n).astype(f32)
    return np.array([d.choice((0.0, np.pi / 2, np.pi, -np.pi / 2, 2 * np.pi)) if d.bool(4) else d.float(lo, hi)
                     for _ in range(n)], dtype=f32)


def rmax(d, b, lo=0.05, hi=0.98):
    """A cutoff below half of the nearest plane distance."""
    f = d.choice((0.5, 0.95, 0.98)) if d.bool(3) else d.float(lo, hi)
    # the memory of CellQuery grows with the bounding box of the box over the cutoff
    f = max(f, float((np.prod(np.abs(b.M).sum(axis=1)[:b.dims]) / 1e6) ** (1 / b.dims) / b.rhalf))
    return float(f32(min(max(f, lo), hi) * b.rhalf))


def rotation_choices():
    """The 24 proper cubic rotations as quaternions."""
    s = np.sqrt(0.5)
    out = [(1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1)]
    for a in (1, -1):
        out += [(s, a * s, 0, 0), (s, 0, a * s, 0), (s, 0, 0, a * s)]
        out += [(0, s, a * s, 0), (0, s, 0, a * s), (0, 0, s, a * s)]
        for b_ in (1, -1):
            for c in (1, -1):
                out.append((0.5, a * 0.5, b_ * 0.5, c * 0.5))
    return np.array(out, dtype=float)


def equiv_quats(d, both_signs=False):
    """A list of equivalent orientations: a rotation group in a drawn order, optionally with both signs."""
    kind = d.weighted((3, "one"), (2, "c2"), (2, "c4"), (2, "oct"), (1, "free"), (2, "cn"), (2, "near"))
    if kind == "one":
        e = np.array([[1, 0, 0, 0]], dtype=float)
    elif kind == "c2":
        e = np.array([[1, 0, 0, 0], [0, 0, 0, 1]], dtype=float)
    elif kind == "c4":
        s = np.sqrt(0.5)
        e = np.array([[1, 0, 0, 0], [s, 0, 0, s], [0, 0, 0, 1], [s, 0, 0, -s]], dtype=float)
    elif kind == "oct":
        e = rotation_choices()
    elif kind in ("cn", "near"):
        # rotations about one axis: by the multiples of 2 pi/n, or by some small angles
        axis = d.choice((np.array([0, 0, 1.0]), np.array([1.0, 1, 1]) / np.sqrt(3), np.array([0, 0.6, 0.8])))
        n = 2 + d.draw(6)
        w = np.arange(n) * (2 * np.pi / n if kind == "cn" else d.float(0.02, 0.5))
        w = np.concatenate([w[:1], w[1:][d.perm(n - 1)]])
        e = np.concatenate([np.cos(w / 2)[:, None], np.sin(w / 2)[:, None] * axis], axis=1)
    else:
        e = np.array([unit_quat(d) for _ in range(1 + d.draw(3))])
    if both_signs:
        e = np.concatenate([e, -e])
        if kind == "free":
            e = np.concatenate([[[1, 0, 0, 0], [-1, 0, 0, 0]], e])
    return kind, e.astype(f32)


# -- neighbor specifications ---------------------------------------------------------------------

def ball_args(d, b, allow_rmin=True, exclude=None):
    r = rmax(d, b)
    a = {"r_max": r, "mode": "ball"}
    if allow_rmin and d.bool(4):
        a["r_min"] = float(f32(d.float(0, 0.95) * r))
    ex = d.bool() if exclude is None else exclude
    if ex:
        a["exclude_ii"] = True
    return a


def nearest_args(d, b, n, exclude=None):
    """Nearest-neighbor arguments; for tilted boxes limited to r_max below half the plane distance."""
    k = 1 + d.draw(max(0, min(n, 12)))
    a = {"num_neighbors": k, "mode": "nearest"}
    if not b.ortho or d.bool(3):
        a["r_max"] = rmax(d, b)
    ex = d.bool() if exclude is None else exclude
    if ex:
        a["exclude_ii"] = True
    return a


def nlist(d, s, min_bonds=0, exclude=None, kind=None):
    """A neighbor list for the system s and its bonds as float64 reference (i, j, vec, dist)."""
    import freud

    kind = kind or d.weighted((3, "ball"), (2, "random"), (1, "all"), (1, "weighted"))
    d.label("nl:" + kind)
    nq, np_ = len(s.Q), len(s.P)
    if kind == "ball":
        r = rmax(d, s.b, lo=0.3)
        I, J, V, D = ref.pairs(s.b, s.P, s.Q)
        keep = D < r
        ex = s.same if exclude is None else exclude
        if ex:
            keep &= I != J
        I, J, V, D = I[keep], J[keep], V[keep], D[keep]
        W = np.ones(len(I))
    else:
        I, J, V, D = ref.pairs(s.b, s.P, s.Q)
        if exclude or (exclude is None and s.same):
            keep = I != J
            I, J, V, D = I[keep], J[keep], V[keep], D[keep]
        if kind != "all" and len(I):
            g = d.rng()
            keep = g.random(len(I)) < d.choice((0.5, 0.15, 0.8))
            I, J, V, D = I[keep], J[keep], V[keep], D[keep]
        W = np.ones(len(I))
        if kind == "weighted" and len(I):
            W = d.rng().uniform(0.1, 3.0, len(I))
    if len(I) < min_bonds:
        raise Discard("too few bonds")
    W = W.astype(f32).astype(float)
    nl = freud.locality.NeighborList.from_arrays(nq, np_, I, J, V.astype(f32), W.astype(f32))
    return nl, (I, J, V, D, W)
