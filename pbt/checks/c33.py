"""C33: Voronoi tessellation and continuous coordination."""

import numpy as np

from .. import gen, ref
from ..engine import Discard, Sub, close, equal, fail, require, same_shape
from .common import nl_arrays
from .common import same_parameters

PROP = "C33"
RULE = ("2D and 3D boxes of any tilt, 1 to 40 distinct points (random, clustered, perturbed and perfect lattices, single "
        "points and small cells whose points neighbor their own images). Oracle: the cells tile the box, every polytope "
        "vertex is equidistant to its point and the nearest others, the hull of the vertices has the stated volume, "
        "every bond vector is an image of the separation, its bisecting plane carries a face of the stated area (or "
        "length), the list is symmetric, and the faces close the cell (divergence theorem). Continuous coordination "
        "numbers: the float64 definition on the bonds and volumes. Non-trivial: three or more points or self bonds.")


def setup(d, nmax=40):
    b = gen.box(d, wide=False, Lmin=4.0)
    kind = d.weighted((3, "random"), (1, "single"), (2, "lattice"), (2, "noisy"), (1, "cluster"))
    g = d.rng()
    if kind == "single":
        n = d.int(1, 3)
        F = g.random((n, 3))
    elif kind in ("lattice", "noisy"):
        m = d.int(2, 3)
        F = np.array([(i, j, k) for i in range(m) for j in range(m) for k in range(m if not b.is2D else 1)]) / m
        if d.bool():
            F = np.concatenate([F, F + 0.5 / m])
        F = (F + g.random(3)) % 1
        if kind == "noisy":
            F = (F + d.choice((0.02, 0.1)) * g.normal(size=F.shape) / m) % 1
    elif kind == "cluster":
        n = d.int(4, nmax)
        F = (0.5 + 0.15 * g.normal(size=(n, 3))) % 1
    else:
        F = g.random((d.int(2, 10) if d.bool() else d.int(2, nmax), 3))
    F[:, b.dims:] = 0.5
    P = gen.from_frac(b, F)
    D = ref.pairs(b, P, P)[3].reshape(len(P), len(P)) + 1e9 * np.eye(len(P))
    if D.min() < 0.01 * (b.volume / len(P)) ** (1 / b.dims):
        raise Discard("nearly coincident points")
    d.note(box=b.desc(), points=P)
    d.label("2D" if b.is2D else "3D", b.kind, kind)
    return b, P, kind


def images(b, P, shells=2):
    r = range(-shells, shells + 1)
    T = np.array([(i, j, k) for i in r for j in r for k in (r if not b.is2D else (0,))], dtype=float) @ b.M.T
    return T


def tessellation(d):
    import freud
    from scipy.spatial import ConvexHull, QhullError

    b, P, kind = setup(d)
    v = freud.locality.Voronoi()
    if d.bool(3):
        v.compute((b.fb, gen.points(d, b, 5, "uniform")))  # the object is reused
    v.compute((b.fb, P))
    n = len(P)
    vol = same_shape("volumes", v.volumes, (n,))
    poly = v.polytopes
    require(len(poly) == n, "number of polytopes", got=len(poly))
    I, J, D, V, W = nl_arrays(v.nlist)
    A = P.astype(float)
    L = (b.volume / n) ** (1 / b.dims)
    S = b.scale
    t = 3e-6 * S
    require(np.all(vol > 0), "cell volume is not positive", volumes=vol)
    close("sum of the volumes", vol.sum(), b.volume, rtol=1e-5, atol=0)
    require(np.all((I >= 0) & (I < n) & (J >= 0) & (J < n)), "index out of range")
    require(np.all(np.diff(I) >= 0), "bonds are not ordered by point")
    equal("neighbor counts", np.asarray(v.nlist.neighbor_counts), np.bincount(I, minlength=n))
    require(np.all(W >= 0), "negative weight")
    close("distances", D, np.sqrt((V ** 2).sum(axis=1)), rtol=1e-5, atol=t)
    if b.is2D:
        require(not np.any(V[:, 2]), "bond out of the plane")
    # every bond vector is an image of the separation
    sep = A[J] - A[I]
    f = ref.frac(b, V - sep)[:, :b.dims]
    off = np.abs(f - np.rint(f)) * np.array([b.Lx, b.Ly, b.Lz])[:b.dims]
    fmin = W > (1e-3 * L) ** (b.dims - 1)  # faces of relevant size
    if len(off):
        bad = (off.max(axis=1) > 20 * t) & fmin
        if bad.any():
            k = int(np.argmax(bad))
            fail("bond vector is not an image of the separation", i=I[k], j=J[k], vector=V[k], separation=sep[k],
                 weight=W[k])
    # symmetric list: (i, j, v, w) and (j, i, -v, w)
    key = np.concatenate([np.stack([I, J], 1), np.rint(V / (0.005 * L))], axis=1)
    for k in np.nonzero(fmin)[0]:
        m = (I == J[k]) & (J == I[k]) & (np.abs(V + V[k]).max(axis=1) < 40 * t)
        if not m.any():
            fail("bond without its opposite", i=I[k], j=J[k], vector=V[k], weight=W[k])
        w = W[m][np.argmin(np.abs(W[m] - W[k]))]
        close("weight of the opposite bond", w, W[k], rtol=1e-3, atol=(2e-3 * L) ** (b.dims - 1) + 30 * t * L ** (b.dims - 2))
    del key
    # the faces close the cells
    for i in range(n):
        s = I == i
        close("volume from the faces", (W[s] * D[s]).sum() / (2 * b.dims), vol[i], rtol=1e-4, atol=30 * t * L ** (b.dims - 1), cell=i)
        u = (W[s, None] * V[s] / np.maximum(D[s, None], 1e-30)).sum(axis=0)
        require(np.abs(u).max() < 1e-3 * W[s].sum() + 1e-9, "faces do not close", cell=i, sum=u)
    # polytopes
    T = images(b, P)
    for i in range(n):
        p = poly[i]
        require(p.shape[1] == 3 and len(p) >= b.dims + 1, "polytope shape", got=p.shape)
        if b.is2D:
            require(not np.any(p[:, 2]), "polytope out of the plane")
        own = np.sqrt(((p - A[i]) ** 2).sum(axis=1))
        near = np.full(len(p), np.inf)
        for q in p[:0]:
            pass
        X = (A[:, None] + T[None]).reshape(-1, 3)
        near = np.sqrt(((p[:, None] - X[None]) ** 2).sum(axis=2)).min(axis=1)
        if b.kind == "strong":
            ok = near >= own - 30 * t  # farther images than those listed may be nearer
            require(np.all(ok), "vertex nearer to another point", cell=i, own=own, nearest=near)
        else:
            close("vertices are not nearest to their point", own, near, rtol=0, atol=30 * t, cell=i)
        dim = b.dims
        if b.is2D:
            a = np.arctan2(p[:, 1] - A[i, 1], p[:, 0] - A[i, 0])
            x, y = p[:, 0], p[:, 1]
            area = 0.5 * np.sum(x * np.roll(y, -1) - np.roll(x, -1) * y)
            close("area of the polygon in its order", area, vol[i], rtol=1e-4, atol=30 * t * L, cell=i, angles=a)
        else:
            try:
                h = ConvexHull(p[:, :dim], qhull_options="QJ").volume
            except QhullError:
                fail("flat polytope", cell=i, vertices=p)
            close("volume of the polytope", h, vol[i], rtol=1e-3, atol=30 * t * L ** 2, cell=i)
    d.nontrivial(n >= 3 or np.any(I == J))
    if np.any(I == J):
        d.label("self bonds")


def against_qhull(d):
    """Volumes and neighbors from scipy's Voronoi diagram of the images."""
    import freud
    from scipy.spatial import ConvexHull, Voronoi

    b, P, kind = setup(d, nmax=12)
    if kind == "lattice" or b.kind == "strong":
        raise Discard("degenerate, or needs more images")
    n = len(P)
    v = freud.locality.Voronoi().compute((b.fb, P))
    A = P.astype(float)
    # all images that may bound the cells: their vertices are no farther away than the covering radius of the lattice
    R = sum([b.Lx, b.Ly, b.Lz][:b.dims])
    m = [int(np.ceil(2 * R / h)) + 1 for h in b.plane[:b.dims]] + [0] * (3 - b.dims)
    if np.prod(2 * np.array(m) + 1) * n > 150000:
        raise Discard("too many images")
    T = np.array(np.meshgrid(*[np.arange(-k, k + 1) for k in m], indexing="ij")).reshape(3, -1).T.astype(float) @ b.M.T
    T = T[np.argsort((T ** 2).sum(axis=1), kind="stable")]
    X = (T[:, None] + A[None]).reshape(-1, 3)[:, :b.dims]
    X = X.reshape(-1, b.dims)
    near = np.sqrt(((X[:, None] - A[None, :, :b.dims]) ** 2).sum(axis=2)).min(axis=1) <= 1.05 * R
    num = np.nonzero(near)[0]
    if len(num) > 6000:
        raise Discard("too many images")
    X = X[num]  # the first n are the points themselves
    vd = Voronoi(X)
    L = (b.volume / n) ** (1 / b.dims)
    I, J, D, V, W = nl_arrays(v.nlist)
    tf = (0.02 * L) ** (b.dims - 1)
    want = {i: [] for i in range(n)}
    for (p, q), r in zip(vd.ridge_points, vd.ridge_vertices):
        if -1 in r:
            continue
        for a, c in ((p, q), (q, p)):
            if a < n:
                x = vd.vertices[r]
                if b.is2D:
                    w = np.linalg.norm(x[0] - x[1])
                else:
                    e = x - x[0]
                    w = 0.5 * np.linalg.norm(sum(np.cross(e[k], e[k + 1]) for k in range(1, len(e) - 1)))
                want[a].append((num[c] % n, X[c] - X[a], w))
    for i in range(n):
        reg = vd.regions[vd.point_region[i]]
        if -1 in reg:
            raise Discard("open region")
        vol = ConvexHull(vd.vertices[reg]).volume
        close("volume", v.volumes[i], vol, rtol=1e-3, atol=1e-5 * L ** b.dims, cell=i)
        s = np.nonzero(I == i)[0]
        for j, u, w in want[i]:
            if w < tf:
                continue
            m = [k for k in s if J[k] == j and np.abs(V[k, :b.dims] - u).max() < 1e-3 * L]
            require(len(m) >= 1, "neighbor missing", i=i, j=j, vector=u, area=w)
            close("weight", W[m].sum(), w, rtol=5e-3, atol=0.05 * tf, i=i, j=j)
        for k in s:
            if W[k] > tf:
                require(any(j == J[k] and np.abs(V[k, :b.dims] - u).max() < 1e-3 * L for j, u, w in want[i]),
                        "neighbor that is none", i=i, j=J[k], vector=V[k], weight=W[k])
    d.nontrivial(n >= 3)


def coordination(d):
    import freud

    b, P, kind = setup(d, nmax=20)
    powers = [d.choice((2.0, 1.0, 0.5, 3.0, 4.0, 0.0, -1.0)) for _ in range(d.int(0, 3))]
    lg, ex = d.bool(), d.bool()
    cc = freud.order.ContinuousCoordination(powers, lg, ex)
    v = freud.locality.Voronoi().compute((b.fb, P))
    if d.bool():
        cc.compute(system=(b.fb, P))
    else:
        cc.compute(voronoi=v)
    n = len(P)
    k = len(powers) + lg + ex
    got = same_shape("coordination", cc.coordination, (n, k))
    require(cc.number_of_coordinations == k, "number_of_coordinations")
    equal("particle_order", np.asarray(cc.particle_order), np.asarray(got))
    I, J, D, V, W = nl_arrays(v.nlist)
    d.note(powers=powers, log=lg, exp=ex)
    for i in range(n):
        s = I == i
        x = W[s] * D[s] / (2 * b.dims) / float(v.volumes[i])
        N = s.sum()
        if N < 2 or np.any(x < 1e-7):
            continue  # powers of vanishing faces are dominated by rounding
        want = [N ** (2 - p) / np.sum(x ** p) for p in powers]
        if lg:
            want.append(-np.sum(np.log(x)) / np.log(N))
        if ex:
            want.append(np.sum(np.exp(x - 1 / N)))
        want = np.array(want)
        close("coordination", got[i].astype(float), want, rtol=2e-4, atol=1e-5, cell=i, powers=powers)
    d.nontrivial(n >= 3 and k > 0)


def printed(d):
    """Parameters of the objects and of those rebuilt from their printed form."""
    import freud

    ps = [d.float(-3, 3) for _ in range(d.int(0, 4))]
    f = [d.bool(), d.bool()]
    d.note(powers=ps, flags=f)
    same_parameters(lambda: freud.order.ContinuousCoordination(ps, f[0], f[1]),
                    {"powers": ps, "compute_log": f[0], "compute_exp": f[1]})
    same_parameters(freud.locality.Voronoi, {})
    d.nontrivial()


SUBS = [Sub(tessellation, 1500), Sub(against_qhull, 600), Sub(coordination, 600), Sub(printed, 300)]
