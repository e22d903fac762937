"""C02: distances and centre of mass."""

import numpy as np

from .. import gen, ref
from ..engine import Sub, close, equal, require, same_shape
from .c01 import circ_com, tolv, vectors

PROP = "C02"
RULE = ("Boxes over 2D/3D, all tilts and periodicities; point sets with coordinates inside and up to 3 images outside "
        "of the box, duplicates, lattice and face positions. A case is non-trivial if some separation crosses a "
        "periodic boundary, or (centre of mass) the points are distinct.")


def dist_ok(b, V, got, t):
    """got must be the length of a wrapped separation (either side of a face within rounding)."""
    W = ref.wrap(b, V)
    want = np.sqrt((W ** 2).sum(axis=1))
    bad = np.abs(got - want) > t + 1e-6 * want
    if bad.any():
        # near a face of the primary cell float32 may choose the other representative
        f = ref.frac(b, V) + 0.5
        ft = t * np.abs(b.Minv[:b.dims, :b.dims]).sum() + 2e-6
        for i in np.nonzero(bad)[0]:
            ok = False
            opts = []
            for a in range(3):
                if not b.periodic[a] or (a == 2 and b.is2D):
                    opts.append([0])
                else:
                    opts.append(sorted({np.floor(f[i, a] - ft), np.floor(f[i, a] + ft)}))
            for x in opts[0]:
                for y in opts[1]:
                    for z in opts[2]:
                        w = V[i] - b.M @ np.array([x, y, z])
                        if abs(np.sqrt(w @ w) - got[i]) <= t + 1e-6 * got[i]:
                            ok = True
            require(ok, "distance is not the length of the wrapped separation", got=got[i], want=want[i],
                    separation=V[i])


def distances(d):
    b = gen.box(d)
    if d.bool(2):
        b = gen.BoxSpec(b.Lx, b.Ly, b.Lz, b.xy, b.xz, b.yz, b.is2D, (d.bool(), d.bool(), d.bool()), b.kind)
    d.label("2D" if b.is2D else "3D", b.kind)
    n, m = d.int(1, 7), d.int(1, 7)
    span = d.choice((0, 1, 3))
    P, _, _ = vectors(d, b, n, span)
    Q, _, _ = vectors(d, b, m, span)
    d.note(box=b.desc(), points=P, query_points=Q)
    t = 2 * max(tolv(b, P), tolv(b, Q))
    A = same_shape("compute_all_distances", b.fb.compute_all_distances(Q, P), (m, n))
    V = (P[None, :, :].astype(float) - Q[:, None, :]).reshape(-1, 3)
    d.nontrivial(np.any(np.abs(ref.wrap(b, V) - V) > t))
    dist_ok(b, V, A.ravel().astype(float), t)
    k = min(n, m)
    D = same_shape("compute_distances", b.fb.compute_distances(Q[:k], P[:k]), (k,))
    equal("compute_distances and compute_all_distances", D, np.diagonal(A[:k, :k]))
    # symmetry, up to the choice of representative on a face
    S = np.asarray(b.fb.compute_all_distances(P, Q)).T
    f = np.abs(ref.frac(b, V)[:, :b.dims] % 1.0 - 0.5).min(axis=1).reshape(m, n)
    ft = t * np.abs(b.Minv[:b.dims, :b.dims]).sum() + 2e-6
    close("symmetry", S, A, rtol=1e-5, atol=t, mask=f > ft)
    # single vectors
    close("compute_distances of single vectors", b.fb.compute_distances(Q[0], P[0]), A[0, :1], rtol=1e-6, atol=t)
    if b.ortho and all(b.periodic[:b.dims]):
        mi = ref.min_image(b, V).reshape(m, n)
        close("minimum image distance in an orthorhombic box", A, mi, rtol=1e-5, atol=t)


def shifts(d):
    b = gen.box(d, wide=False)
    n, m = d.int(1, 6), d.int(1, 6)
    P, _, _ = vectors(d, b, n, 0)
    Q, _, _ = vectors(d, b, m, 0)
    k = np.array([[d.int(-3, 3) for _ in range(3)] for _ in range(n)], dtype=float)
    k[:, b.dims:] = 0
    P2 = (P + k @ b.M.T).astype(np.float32)
    d.note(box=b.desc(), points=P, query_points=Q, shifts=k)
    d.nontrivial(np.any(k))
    t = 3 * max(tolv(b, P2), tolv(b, Q))
    A = np.asarray(b.fb.compute_all_distances(Q, P))
    B = np.asarray(b.fb.compute_all_distances(Q, P2))
    V = (P[None, :, :].astype(float) - Q[:, None, :]).reshape(-1, 3)
    f = np.abs(ref.frac(b, V)[:, :b.dims] % 1.0 - 0.5).min(axis=1).reshape(m, n)
    ft = t * np.abs(b.Minv[:b.dims, :b.dims]).sum() + 4e-6
    close("distances after lattice shifts", B, A, rtol=1e-5, atol=t, mask=(f > ft))
    # triangle bound and identity
    Z = np.asarray(b.fb.compute_distances(P, P2))
    require(np.all(Z <= t + 1e-5), "distance of a point to its own image", got=Z)


def com(d):
    b = gen.box(d)
    n = d.int(1, 12)
    P, _, _ = vectors(d, b, n, d.choice((0, 2)))
    masses = None if d.bool(3) else np.array([d.float(0.05, 5) for _ in range(n)], dtype=np.float32)
    d.note(box=b.desc(), points=P, masses=masses)
    d.nontrivial(len(np.unique(P, axis=0)) > 1)
    m = np.ones(n) if masses is None else masses
    want, amp = circ_com(b, P, m)
    if amp.min() < 0.02:
        return
    t = (5 * tolv(b, P) + 3e-6 * b.scale) / amp.min()

    def same(name, got, exp):
        got = np.asarray(got, dtype=float)
        same_shape(name, got, (3,))
        k = np.round(ref.frac(b, got - exp))
        k[b.dims:] = 0
        close(name + " (modulo the lattice)", got, exp + b.M @ k, rtol=0, atol=t)

    c = np.asarray(b.fb.center_of_mass(P, masses))
    same("center_of_mass", c, want)
    f = ref.frac(b, c)[:b.dims]
    require(np.all(np.abs(f) <= 0.5 + 2e-6), "the centre of mass is outside of the box", got=c)
    p = d.perm(n)
    same("center_of_mass of permuted points", b.fb.center_of_mass(P[p], None if masses is None else masses[p]), want)
    k = np.array([[d.int(-2, 2) for _ in range(3)] for _ in range(n)], dtype=float)
    k[:, b.dims:] = 0
    P2 = (P + k @ b.M.T).astype(np.float32)
    t = (5 * tolv(b, P2) + 3e-6 * b.scale) / amp.min()
    same("center_of_mass after lattice shifts", b.fb.center_of_mass(P2, masses), want)
    s = d.choice((2.0, 0.25, 7.5))
    same("center_of_mass with scaled masses", b.fb.center_of_mass(P, (m * s).astype(np.float32)), want)
    if masses is None:
        equal("masses default to one", b.fb.center_of_mass(P, np.ones(n)), c)


SUBS = [Sub(distances, 5000), Sub(shifts, 3000), Sub(com, 4000)]
