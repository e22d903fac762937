"""C13: potentials of mean force and torque."""

import numpy as np

from .. import gen, ref
from ..engine import Sub, close, raises, require, same_shape
from . import common

PROP = "C13"
RULE = ("2D (R12, XY, XYT) and 3D (XYZ) systems of 1 to 40 points, orientations as angles in [-7, 7] (special ones "
        "common) or as z rotation quaternions of both signs and any norm, unit quaternions and lists of equivalent "
        "orientations in 3D, 1 to 12 bins per axis, anisotropic extents, default neighbors, query arguments and "
        "explicit lists. Oracle: float64 local coordinates of every bond binned with tolerance for rounding at edges; "
        "the pmft is recomputed from the reported counts and the stated normalisation. Non-trivial: at least three "
        "bonds in at least two bins.")

TP = 2 * np.pi


def as_quats(d, a):
    """Equivalent z rotation quaternions of the angles."""
    a = np.asarray(a, dtype=np.float64)
    q = np.stack([np.cos(a / 2), 0 * a, 0 * a, np.sin(a / 2)], axis=1)
    k = d.draw(2)
    if k == 1:
        q = -q
    elif k == 2:
        q = q * d.rng().choice([1.0, -1.0, 3.0], len(a))[:, None]
    return q


def orient_arg(d, a, allow_quat=True):
    """The angles in one of the accepted forms."""
    n = len(a)
    k = d.draw(3)
    if k == 1 and allow_quat:
        d.label("quaternions")
        return as_quats(d, a)
    if k == 2:
        return np.asarray(a).reshape(n, 1)
    if k == 3:
        return [float(x) for x in a]
    return a


def nbins(d, n):
    if d.bool(4):
        k = d.int(1, 8)
        return k, (k,) * n
    t = tuple(d.choice((1, 2, 3, 4)) if d.bool() else d.int(1, 12) for _ in range(n))
    return d.choice((tuple, list))(t), t


def axes(edges, obj, name):
    e = obj.bin_edges
    c = obj.bin_centers
    bd = obj.bounds
    require(len(e) == len(edges), f"{name}: number of axes")
    for k, w in enumerate(edges):
        s = np.abs(w).max()
        close(f"{name}: edges of axis {k}", np.asarray(e[k]).astype(float), w, rtol=1e-5, atol=2e-6 * s)
        close(f"{name}: centers of axis {k}", np.asarray(c[k]).astype(float), (w[1:] + w[:-1]) / 2, rtol=1e-5,
              atol=2e-6 * s)
        close(f"{name}: bounds of axis {k}", np.array(bd[k]), w[[0, -1]], rtol=1e-6, atol=1e-6 * s)
    require(list(obj.nbins) == [len(w) - 1 for w in edges], f"{name}: nbins")


def finish(d, name, obj, b, edges, vals, tols, periodic, n, m, vol, norm=1, frames=1):
    """Compares counts with the reference and the pmft with the counts."""
    axes(edges, obj, name)
    shape = tuple(len(e) - 1 for e in edges)
    if d.bool():
        pm = np.asarray(obj.pmft)
        counts = np.asarray(obj.bin_counts)
    else:
        counts = np.asarray(obj.bin_counts)
        pm = np.asarray(obj.pmft)
    same_shape(f"{name}: bin_counts", counts, shape)
    same_shape(f"{name}: pmft", pm, shape)
    h = ref.HistRef(edges, vals, tols=tols, periodic=periodic)
    require(np.all(counts % frames == 0), f"{name}: bin_counts of repeated frames", got=counts, frames=frames)
    counts = counts // frames
    msg = h.check(counts)
    require(msg is None, f"{name}: bin_counts: {msg}", values=vals[:6])
    d.nontrivial((counts > 0).sum() >= 2 and counts.sum() >= 3)
    pcf = counts / (n * (m / b.volume) * vol * norm)
    with np.errstate(divide="ignore"):
        want = -np.log(pcf)
    require(np.array_equal(np.isinf(pm), counts == 0) and np.all(pm[counts == 0] > 0), f"{name}: pmft of empty bins")
    k = counts > 0
    close(f"{name}: pmft", pm[k], want[k], rtol=1e-5, atol=5e-5)
    require(obj.box == b.fb, f"{name}: box")


def setup2d(d, r_max):
    s = gen.system(d, dims=2, nmax=40)
    b = s.b
    rm = r_max(b)
    return s, b, rm


def draw_angles(d, n):
    return gen.angles(d, n)


def common2d(d, s, B):
    """(orientations, query orientations, kwargs) in accepted forms."""
    n, m = len(s.P), len(s.Q)
    a = draw_angles(d, n)
    own = d.bool() or m != n
    q = draw_angles(d, m) if own else a
    return a, q, own


def angle_tol(D, a, t):
    with np.errstate(all="ignore"):
        x = np.where(D > 0, 2 * t / np.maximum(D, 1e-300), 10.0)
    return np.minimum(x + 2e-6 * (1 + np.abs(a)), 10.0)


def r12(d):
    import freud

    s = gen.system(d, dims=2, nmax=40)
    b = s.b
    r_max = gen.rmax(d, b, lo=0.3)
    arg, shape = nbins(d, 3)
    B = common.bonds(d, s, default_rmax=r_max)
    a, q, own = common2d(d, s, B)
    d.note(r_max=r_max, bins=shape, orientations=a, query_orientations=q if own else None,
           neighbors=B.neighbors if B.how != "list" else "list")
    p = freud.pmft.PMFTR12(r_max, arg)
    kw = B.kw()
    if own:
        kw["query_orientations"] = orient_arg(d, q)
    arg_a = orient_arg(d, a)
    frames = common.accumulate(d, lambda **r: p.compute(B.sys, arg_a, **kw, **r))
    t = 2 * ref.tol(b)
    th = np.arctan2(B.V[:, 1], B.V[:, 0])
    th2 = np.arctan2(-B.V[:, 1], -B.V[:, 0])
    t1 = (a[B.J].astype(float) - th) % TP
    t2 = (q[B.I].astype(float) - th2) % TP
    vals = np.stack([B.D, t1, t2], axis=1)
    tols = [t + 2e-6 * r_max, angle_tol(B.D, a[B.J], t), angle_tol(B.D, q[B.I], t)]
    edges = [np.linspace(0, r_max, shape[0] + 1), np.linspace(0, TP, shape[1] + 1), np.linspace(0, TP, shape[2] + 1)]
    r = (edges[0][1:] + edges[0][:-1]) / 2
    vol = (r * (r_max / shape[0]) * (TP / shape[1]) * (1 / shape[2]))[:, None, None] * np.ones(shape)
    finish(d, "PMFTR12", p, b, edges, vals, tols, [False, True, True], len(s.P), len(s.Q), vol, frames=frames)


def extents(d, b, k):
    """Half widths so that the default r_max stays below half of the box."""
    f = np.array([d.float(0.2, 1.0) for _ in range(k)])
    f = f / np.sqrt((f ** 2).sum()) * d.float(0.3, 0.95) * b.rhalf
    return [float(np.float32(x)) for x in f]


def xy(d):
    import freud

    s = gen.system(d, dims=2, nmax=40)
    b = s.b
    X, Y = extents(d, b, 2)
    if d.bool(4):
        X, Y = X * 3, Y * 3
    arg, shape = nbins(d, 2)
    rm = np.sqrt(X ** 2 + Y ** 2)
    B = common.bonds(d, s, default_rmax=rm if rm < 0.97 * b.rhalf else None)
    q = draw_angles(d, len(s.Q))
    d.note(extent=[X, Y], bins=shape, query_orientations=q, neighbors=B.neighbors if B.how != "list" else "list")
    p = freud.pmft.PMFTXY(X, Y, arg)
    arg_q = orient_arg(d, q)
    frames = common.accumulate(d, lambda **r: p.compute(B.sys, arg_q, **B.kw(), **r))
    x, y, tol = local2d(B, q, b)
    edges = [np.linspace(-X, X, shape[0] + 1), np.linspace(-Y, Y, shape[1] + 1)]
    finish(d, "PMFTXY", p, b, edges, np.stack([x, y], axis=1), [tol, tol], [False, False], len(s.P), len(s.Q),
           4 * X * Y / (shape[0] * shape[1]), frames=frames)


def local2d(B, q, b):
    c, sn = np.cos(-q[B.I].astype(float)), np.sin(-q[B.I].astype(float))
    x = c * B.V[:, 0] - sn * B.V[:, 1]
    y = sn * B.V[:, 0] + c * B.V[:, 1]
    return x, y, 2 * ref.tol(b) + 3e-6 * (1 + np.abs(q[B.I])) * B.D


def xyt(d):
    import freud

    s = gen.system(d, dims=2, nmax=40)
    b = s.b
    X, Y = extents(d, b, 2)
    arg, shape = nbins(d, 3)
    B = common.bonds(d, s, default_rmax=float(np.sqrt(X ** 2 + Y ** 2)))
    a, q, own = common2d(d, s, B)
    d.note(extent=[X, Y], bins=shape, orientations=a, query_orientations=q if own else None,
           neighbors=B.neighbors if B.how != "list" else "list")
    p = freud.pmft.PMFTXYT(X, Y, arg)
    kw = B.kw()
    if own:
        kw["query_orientations"] = orient_arg(d, q)
    arg_a = orient_arg(d, a)
    frames = common.accumulate(d, lambda **r: p.compute(B.sys, arg_a, **kw, **r))
    x, y, tol = local2d(B, q, b)
    t = (a[B.J].astype(float) - np.arctan2(-B.V[:, 1], -B.V[:, 0])) % TP
    edges = [np.linspace(-X, X, shape[0] + 1), np.linspace(-Y, Y, shape[1] + 1), np.linspace(0, TP, shape[2] + 1)]
    finish(d, "PMFTXYT", p, b, edges, np.stack([x, y, t], axis=1),
           [tol, tol, angle_tol(B.D, a[B.J], 2 * ref.tol(b))], [False, False, True], len(s.P), len(s.Q),
           4 * X * Y / np.prod(shape), frames=frames)


def xyz(d):
    import freud

    s = gen.system(d, dims=3, nmax=30)
    b = s.b
    E = extents(d, b, 3)
    arg, shape = nbins(d, 3)
    shift = np.zeros(3)
    if d.bool(4):
        shift = np.array([float(np.float32(d.float(-0.4, 0.4) * b.rhalf)) for _ in range(3)])
        B = None
        Q0 = s.Q
        # query points moved outside of the box are equivalent to their images
        moved = (Q0 - shift.astype(np.float32)).astype(np.float32)
        I, J, V, D = ref.pairs(b, s.P, moved)
        r = float(np.sqrt(sum(x * x for x in E)))
        r32 = float(np.float32(r))
        t = 4 * ref.tol(b)
        if np.any(np.abs(D - r32) < t):
            return
        k = D < r32
        if s.same:
            k &= I != J
        nb = (I[k], J[k], V[k], D[k])
        d.label("shifted")
        p = freud.pmft.PMFTXYZ(*E, arg, shiftvec=d.choice((list, tuple, np.array))(shift.tolist()))
        sy, kw = common.sysarg(d, s), ({} if s.same else {"query_points": s.Q})
    else:
        B = common.bonds(d, s, default_rmax=float(np.sqrt(sum(x * x for x in E))))
        nb = (B.I, B.J, B.V, B.D)
        p = freud.pmft.PMFTXYZ(*E, arg) if d.bool() else freud.pmft.PMFTXYZ(*E, arg, [0, 0, 0])
        sy, kw = B.sys, B.kw()
    q = gen.quats(d, len(s.Q))
    kind, eq = ("default", np.array([[1, 0, 0, 0]])) if d.bool(3) else gen.equiv_quats(d)
    if kind != "default":
        kw["equiv_orientations"] = eq if d.bool() else eq.astype(np.float64)
    d.label("equiv:" + kind)
    d.note(extent=E, bins=shape, query_orientations=q, equiv=eq, shift=shift)
    before = None if "query_points" not in kw else np.array(kw["query_points"])
    frames = common.accumulate(d, lambda **r: p.compute(sy, q, **kw, **r))
    if before is not None:
        require(np.array_equal(before, kw["query_points"]), "PMFTXYZ modifies the query points")
    I, J, V, D = nb
    v = ref.qrot(ref.qconj(q[I]), V) if len(I) else np.zeros((0, 3))
    vals = np.concatenate([ref.qrot(e, v) for e in eq.astype(float)]) if len(I) else np.zeros((0, 3))
    tol = np.tile(4 * ref.tol(b) + 6e-6 * D, len(eq))
    edges = [np.linspace(-E[k], E[k], shape[k] + 1) for k in range(3)]
    finish(d, "PMFTXYZ", p, b, edges, vals, [tol] * 3, [False] * 3, len(s.P), len(s.Q),
           8 * E[0] * E[1] * E[2] / np.prod(shape), len(eq), frames)


def edge_values(d, X, bins):
    e = np.linspace(-float(X), float(X), bins + 1).astype(np.float32)
    X = np.float32(X)
    v = d.choice((X, -X)) if d.bool() else e[d.draw(bins)]
    k = d.draw(2)
    return v if k == 0 else np.nextafter(v, np.float32(0 if k == 1 else 1e9 * (1 if v > 0 else -1)))


def inside(d):
    """Every bond with local coordinates in the ranges is counted, however close to an edge."""
    import freud

    three = d.bool()
    dims = 3 if three else 2
    bins = [d.int(1, 24) for _ in range(dims)]
    X = [float(np.float32(d.choice((1.0, 1.3, 2.7, 3.0)))) for _ in range(dims)]
    m = d.int(1, 12)
    V = np.zeros((m, 3), dtype=np.float32)
    for i in range(m):
        for k in range(dims):
            V[i, k] = edge_values(d, X[k], bins[k]) if d.bool() else np.float32(d.float(-1, 1) * X[k] * 0.999)
    d.note(bins=bins, extent=X, vectors=V)
    nl = freud.locality.NeighborList.from_arrays(1, m, np.zeros(m, int), np.arange(m), V)
    b = freud.box.Box(100, 100, 100 if three else 0, is2D=not three)
    sy, kw = (b, np.zeros((m, 3))), dict(query_points=np.zeros((1, 3)), neighbors=nl)
    if three:
        N = freud.pmft.PMFTXYZ(*X, bins).compute(sy, np.array([[1, 0, 0, 0]]), **kw).bin_counts
    elif d.bool():
        N = freud.pmft.PMFTXY(*X, bins).compute(sy, np.zeros(1), **kw).bin_counts
    else:
        N = freud.pmft.PMFTXYT(*X, bins + [1]).compute(sy, np.zeros(m), query_orientations=np.zeros(1), **kw).bin_counts
    ok = np.ones(m, dtype=bool)
    for k in range(dims):
        ok &= (V[:, k] >= -np.float32(X[k])) & (V[:, k] < np.float32(X[k]))
    d.nontrivial(ok.sum() > 1 or not ok.all())
    require(np.asarray(N).sum() == ok.sum(), "number of counted bonds", got=np.asarray(N).sum(), want=ok.sum(), inside=ok)


def same_orientations(d):
    """Angles and quaternions that stand for the same rotations give the same counts."""
    import freud

    s = gen.system(d, dims=2, nmin=2, nmax=30, wide=False, style="uniform")
    b = s.b
    n, m = len(s.P), len(s.Q)
    a = d.rng().uniform(-3, 3, n).astype(np.float32)
    q = d.rng().uniform(-3, 3, m).astype(np.float32)
    X, Y = extents(d, b, 2)
    d.note(orientations=a, query_orientations=q)

    def go(fa, fq):
        out = []
        p = freud.pmft.PMFTR12(float(np.hypot(X, Y)), 3)
        out.append(np.asarray(p.compute((b.fb, s.P), fa, s.Q, fq).bin_counts))
        p = freud.pmft.PMFTXYT(X, Y, 3)
        out.append(np.asarray(p.compute((b.fb, s.P), fa, s.Q, fq).bin_counts))
        p = freud.pmft.PMFTXY(X, Y, 3)
        out.append(np.asarray(p.compute((b.fb, s.P), fq, s.Q).bin_counts))
        return out

    x = go(a, q)
    y = go(as_quats(d, a), as_quats(d, q))
    z = go(a + np.float32(TP) * d.int(-1, 1), q)
    d.nontrivial(x[0].sum() > 2)
    for u, v, w, name in zip(x, y, z, ("R12", "XYT", "XY")):
        # rounding may move a value that lies on an edge
        t = max(1, int(0.02 * u.sum()))
        require(np.abs(u - v).sum() <= 2 * t, f"PMFT{name}: quaternions instead of angles", angles=u, quats=v)
        require(np.abs(u - w).sum() <= 2 * t, f"PMFT{name}: angles shifted by full turns", angles=u, shifted=w)


def rejects(d):
    import freud

    d.nontrivial()
    b2 = gen.box(d, dims=2)
    b3 = gen.box(d, dims=3)
    n, m = d.int(2, 6), d.int(7, 9)
    P2, P3, Q2, Q3 = gen.points(d, b2, n), gen.points(d, b3, n), gen.points(d, b2, m), gen.points(d, b3, m)
    r = gen.rmax(d, b2)
    a = gen.angles(d, n)
    q = gen.quats(d, n)
    d.note(n=n, m=m)
    R12 = freud.pmft.PMFTR12
    XYT = freud.pmft.PMFTXYT
    for p in (R12(r, 2), XYT(r / 2, r / 2, 2)):
        nm = type(p).__name__
        require(raises(lambda: p.compute((b3.fb, P3), a)), f"{nm}: a 3D box is accepted")
        require(raises(lambda: p.compute((b2.fb, P2), a, Q2)), f"{nm}: missing query orientations are accepted")
        require(raises(lambda: p.compute((b2.fb, P2), a[:-1])), f"{nm}: too few orientations are accepted")
        require(raises(lambda: p.compute((b2.fb, P2), a, Q2, a)), f"{nm}: too few query orientations are accepted")
        bad = np.zeros((n, 4))
        bad[:, 1] = 1
        require(raises(lambda: p.compute((b2.fb, P2), bad)), f"{nm}: x rotations are accepted")
        p.compute((b2.fb, P2), a)
    p = freud.pmft.PMFTXY(r / 2, r / 2, 2)
    require(raises(lambda: p.compute((b3.fb, P3), a)), "PMFTXY: a 3D box is accepted")
    require(raises(lambda: p.compute((b2.fb, P2), a, Q2)), "PMFTXY: too few orientations are accepted")
    p = freud.pmft.PMFTXYZ(r / 2, r / 2, r / 2, 2)
    require(raises(lambda: p.compute((b2.fb, P2), q)), "PMFTXYZ: a 2D box is accepted")
    require(raises(lambda: p.compute((b3.fb, P3), q, Q3)), "PMFTXYZ: too few orientations are accepted")
    require(raises(lambda: R12(r, 0)) and raises(lambda: R12(-1.0, 2)), "PMFTR12: invalid parameters are accepted")
    require(raises(lambda: XYT(r, r, (1, 0, 1))), "PMFTXYT: no bins are accepted")


SUBS = [Sub(r12, 3000), Sub(xy, 3000), Sub(xyt, 3000), Sub(xyz, 3500), Sub(inside, 2000), Sub(same_orientations, 600), Sub(rejects, 200)]
