"""C16: Gaussian density and sphere voxelization."""

import numpy as np

from .. import gen
from ..engine import Discard, Sub, close, equal, raises, require, same_shape

PROP = "C16"
RULE = ("Orthorhombic 2D and 3D periodic boxes, 1 to 30 points (clusters, faces, lattice points on cell centres), "
        "grids of 1 to 24 cells per direction given as an integer or sequence, r_max from 0.05 to 1.0 of the shortest "
        "side, sigma, weights. Oracle: every cell evaluated directly in float64 over all points; cells with a point "
        "within rounding of r_max are bounded. Metamorphic: shift by whole cells rolls the grid, permutation, "
        "linearity in the values. Non-trivial: between 1 and all-but-one cells are occupied.")


def setup(d, wide=True):
    b = gen.box(d, kinds=("cubic", "ortho"), wide=wide)
    P = gen.points(d, b, gen.npts(d, 1, 30))
    top = 24 if b.is2D else 10
    if d.bool(4):
        w = d.int(1, top)
        arg, W = w, [w] * 3
    else:
        W = [d.int(1, top) for _ in range(3)]
        arg = tuple(W[:2]) if (b.is2D and d.bool()) else tuple(W)
        if d.bool():
            arg = list(arg)
    if b.is2D:
        W[2] = 1
    L = np.array([b.Lx, b.Ly, b.Lz if not b.is2D else 1.0])
    r = float(np.float32(d.float(0.05, 1.0) * L[:b.dims].min()))
    if d.bool(5):
        r = float(np.float32(L[0] / W[0]))
    d.note(box=b.desc(), points=P, width=arg, r_max=r)
    d.label("2D" if b.is2D else "3D")
    return b, P, arg, W, L, r


def distances(b, P, W, L):
    """(cells, points) wrapped distances, cells in C order of the grid."""
    ax = [((np.arange(W[k]) + 0.5) / W[k] - 0.5) * L[k] for k in range(3)]
    if b.is2D:
        ax[2] = np.zeros(1)
    G = np.stack(np.meshgrid(*ax, indexing="ij"), axis=-1).reshape(-1, 3)
    V = G[:, None, :] - P[None].astype(float)
    V -= np.rint(V / L) * L * ([1, 1, 0] if b.is2D else [1, 1, 1])
    return np.sqrt((V ** 2).sum(axis=2))


def gaussian(d):
    import freud

    b, P, arg, W, L, r = setup(d)
    sigma = float(np.float32(d.choice((0.1, 0.3, 1.0, 3.0)) * r))
    vals = d.rng().uniform(-2, 3, len(P)).astype(np.float32) if d.bool() else None
    d.note(sigma=sigma, values=vals)
    g = freud.density.GaussianDensity(arg, r, sigma)
    if d.bool(4):
        g.compute((b.fb, P[::-1].copy()))
    g.compute((b.fb, P), vals)
    D = distances(b, P, W, L)
    t = 1e-6 * L.max() * 3 + 1e-6 * r
    v = np.ones(len(P)) if vals is None else vals.astype(float)
    K = np.exp(-D ** 2 / (2 * sigma ** 2)) * (2 * np.pi * sigma ** 2) ** (-b.dims / 2)
    inside, edge = D < r - t, np.abs(D - r) <= t
    want = (K * inside) @ v
    mag = (K * inside) @ np.abs(v)
    slack = (K * edge) @ np.abs(v)
    got = same_shape("density", g.density, W[:b.dims])
    # error of the exponent: D dD / sigma^2
    rel = 2e-5 + (np.minimum(D, r) * t / sigma ** 2 * inside).max(initial=0)
    d.nontrivial(0 < (inside.any(axis=1)).sum() and not edge.all())
    close("density", np.asarray(got, float).ravel(), want, rtol=0, atol=mag * rel + slack * 1.001 + 1e-30)
    none = ~(inside | edge).any(axis=1)
    require(np.all(np.asarray(got).ravel()[none] == 0), "density of cells without points is not zero")
    require(g.box == b.fb, "box")


def gaussian_shift(d):
    import freud

    b, P, arg, W, L, r = setup(d, wide=False)
    sigma = float(np.float32(d.choice((0.3, 1.0)) * r))
    D = distances(b, P, W, L)
    t = 4e-6 * L.max()
    if np.any(np.abs(D - r) < t):
        raise Discard("point at the cutoff")
    g = freud.density.GaussianDensity(arg, r, sigma)
    vox = freud.density.SphereVoxelization(arg, r)
    vals = d.rng().uniform(0, 3, len(P)).astype(np.float32)
    A = np.array(g.compute((b.fb, P), vals).density, float)
    X = np.array(vox.compute((b.fb, P)).voxels)
    d.nontrivial(0 < X.sum() < X.size)
    k = [d.draw(W[i] - 1) for i in range(3)]
    S = P.astype(float) + np.array([k[i] * L[i] / W[i] if not (i == 2 and b.is2D) else 0 for i in range(3)])
    S = np.asarray(b.fb.wrap(S.astype(np.float32)))
    if b.is2D:
        S[:, 2] = 0
    d.note(shift_cells=k)
    tol = 3e-5 * (1 + (r / sigma) * L.max() / sigma) * np.abs(A).max() + 1e-12
    close("density after a shift by whole cells", np.asarray(g.compute((b.fb, S), vals).density, float),
          np.roll(A, k[:b.dims], axis=tuple(range(b.dims))), rtol=0, atol=tol)
    equal("voxels after a shift by whole cells", np.asarray(vox.compute((b.fb, S)).voxels),
          np.roll(X, k[:b.dims], axis=tuple(range(b.dims))))
    p = d.perm(len(P))
    close("density of permuted points", np.asarray(g.compute((b.fb, P[p]), vals[p]).density, float), A, rtol=1e-5,
          atol=1e-5 * np.abs(A).max())
    equal("voxels of permuted points", np.asarray(vox.compute((b.fb, P[p])).voxels), X)
    close("density of doubled values", np.asarray(g.compute((b.fb, P), 2 * vals).density, float), 2 * A, rtol=1e-5,
          atol=1e-5 * np.abs(A).max())
    # the union of the voxels of two subsets
    m = d.int(1, len(P))
    X1 = np.array(vox.compute((b.fb, P[:m])).voxels)
    X2 = np.array(vox.compute((b.fb, P[m:])).voxels) if m < len(P) else 0 * X1
    equal("voxels of the union", X, np.maximum(X1, X2))
    A1 = np.array(g.compute((b.fb, P[:m]), vals[:m]).density, float)
    A2 = np.array(g.compute((b.fb, P[m:]), vals[m:]).density, float) if m < len(P) else 0 * A1
    close("density of the union", A, A1 + A2, rtol=1e-5, atol=1e-5 * np.abs(A).max())


def voxels(d):
    import freud

    b, P, arg, W, L, r = setup(d)
    x = freud.density.SphereVoxelization(arg, r)
    if d.bool(4):
        x.compute((b.fb, P[:1]))
    x.compute((b.fb, P))
    X = same_shape("voxels", x.voxels, W[:b.dims]).ravel().astype(int)
    require(set(X.tolist()) <= {0, 1}, "voxels are not 0 or 1")
    D = distances(b, P, W, L)
    t = 1e-6 * L.max() * 3 + 1e-6 * r
    must = (D < r - t).any(axis=1)
    may = (D <= r + t).any(axis=1)
    d.nontrivial(0 < must.sum() < len(X))
    for name, bad in (("a voxel within r_max of a point is empty", must & (X == 0)),
                      ("a voxel further than r_max from all points is set", ~may & (X == 1))):
        if bad.any():
            i = int(np.argmax(bad))
            require(False, name, voxel=list(np.unravel_index(i, W)), nearest=float(D[i].min()), r_max=r, bad=bad.sum())
    require(x.box == b.fb, "box")


def attributes(d):
    import freud

    b, P, arg, W, L, r = setup(d)
    g = freud.density.GaussianDensity(arg, r, r)
    x = freud.density.SphereVoxelization(arg, r)
    d.nontrivial()
    for o, a in ((g, "density"), (x, "voxels")):
        require(raises(lambda o=o, a=a: getattr(o, a), AttributeError), f"{a} before compute")
        o.compute((b.fb, P))
        w = np.asarray(o.width).tolist()
        require(w == list(W), "width", got=w, want=W)
        require(abs(o.r_max - r) <= 1e-6 * r, "r_max")
    require(abs(g.sigma - r) <= 1e-6 * r, "sigma")


SUBS = [Sub(gaussian, 3000), Sub(gaussian_shift, 1500), Sub(voxels, 3000), Sub(attributes, 200)]
