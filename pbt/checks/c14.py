"""C14: bond-order diagrams."""

import numpy as np

from .. import gen, ref
from ..engine import Sub, close, raises, require, same_shape
from . import common

PROP = "C14"
RULE = ("3D systems of 1 to 40 points (lattice styles put bonds exactly along axes and poles), unit quaternions for "
        "points and query points, all four modes, 2 to 40 bins per angle, query arguments and explicit lists. Oracle: "
        "float64 directions in the mode's frame, binned with tolerance for rounding at edges (angles of directions at "
        "the poles are arbitrary); the diagram is recomputed from the counts. Non-trivial: at least three bonds of "
        "nonzero length in at least two bins.")

TP = 2 * np.pi


def direction(mode, V, qp, qq):
    """Directions in the frame of the mode; qp, qq are the orientations of the bond's point and query point."""
    if mode == "bod" or len(V) == 0:
        return V.copy()
    if mode == "lbod":
        return ref.qrot(ref.qconj(qp), V)
    if mode == "obcd":
        return ref.qrot(qq, ref.qrot(ref.qconj(qp), V))
    z = ref.qrot(qq, np.tile([0.0, 0.0, 1.0], (len(V), 1)))
    return ref.qrot(ref.qconj(qp), z)


def check(d, bo, mode, bins, V, qp, qq, t, frames=1, name=""):
    nt, nphi = bins
    v = direction(mode, V, qp, qq)
    L = np.sqrt((v ** 2).sum(axis=1))
    ok = L > 0
    v, L = v[ok], L[ok]
    err = (t / np.sqrt((V[ok] ** 2).sum(axis=1)) if mode != "oocd" else 0 * L) + 2e-6
    u = v / L[:, None] if len(v) else v
    phi = np.arctan2(np.hypot(u[:, 0], u[:, 1]), u[:, 2])
    theta = np.arctan2(u[:, 1], u[:, 0]) % TP
    s = np.maximum(np.hypot(u[:, 0], u[:, 1]), 1e-300)
    # acos of a float32 cosine: error eps / sin(phi), at most sqrt(2 eps)
    tphi = err + np.minimum(1e-6 / s, 2e-3)
    ttheta = np.minimum(4 * err / s, 10.0)
    ttheta = np.where(s < 4 * err, 10.0, ttheta)
    et = np.linspace(0, TP, nt + 1)
    # a bond at a pole stays in the outermost bin
    ep = np.linspace(0, np.pi, nphi + 1)
    ep[0], ep[-1] = -1, 4
    h = ref.HistRef([et, ep], np.stack([theta, phi], axis=1), tols=[ttheta, tphi], periodic=[True, False])
    counts = same_shape(f"{name}bin_counts", bo.bin_counts, (nt, nphi))
    msg = h.check(counts)
    require(msg is None, f"{name}bin_counts ({mode}): {msg}", bonds=len(L), directions=u[:5])
    require(counts.sum() >= len(L), f"{name}a bond is lost ({mode})", got=int(counts.sum()), want=len(L),
            directions=u[:8])
    B = same_shape(f"{name}bond_order", bo.bond_order, (nt, nphi))
    p = np.linspace(0, np.pi, nphi + 1)
    sa = (TP / nt) * (np.cos(p[:-1]) - np.cos(p[1:]))[None, :]
    want = counts / sa / frames
    # the solid angle of polar bins is a difference of float32 cosines
    close(f"{name}bond_order", B, want, rtol=1e-5 + 4e-7 * nt / sa.min() / 10, atol=1e-12)
    if frames == 1:
        close(f"{name}integral over the sphere", float((B * sa).sum()), float(counts.sum()), rtol=1e-3, atol=1e-9)
    return counts


def draw_bins(d):
    if d.bool(4):
        k = d.int(2, 12)
        return k, (k, k)
    t = (d.int(2, 20), d.int(2, 20)) if d.bool(2) else (d.choice((2, 4, 8, 36)), d.choice((2, 3, 6, 40)))
    return d.choice((tuple, list))(t), t


def diagram(d):
    import freud

    s = gen.system(d, dims=3, nmax=40, style=d.choice((None, None, "lattice", "faces")))
    b = s.b
    mode = d.choice(("bod", "lbod", "obcd", "oocd"))
    arg, bins = draw_bins(d)
    B = common.bonds(d, s)
    n, m = len(s.P), len(s.Q)
    kw = B.kw()
    q = gen.quats(d, n)
    give = mode != "bod" or d.bool() or (B.qp is not None and n != m)
    own = d.bool() or (B.qp is not None and n != m)
    qq = gen.quats(d, m) if own else q
    if give:
        kw["orientations"] = q if d.bool() else q.astype(float)
    else:
        q = np.tile([1.0, 0, 0, 0], (n, 1))
        qq = qq if own else q
    if own:
        kw["query_orientations"] = qq
    d.label(mode)
    d.note(mode=mode, bins=bins, orientations=q, query_orientations=qq if own else None)
    if mode == "bod" and d.bool():
        bo = freud.environment.BondOrder(arg)
    else:
        bo = freud.environment.BondOrder(arg, mode) if d.bool() else freud.environment.BondOrder(bins=arg, mode=mode)
    require(bo.mode == mode, "mode")
    require(bo.compute(B.sys, **kw) is bo, "compute does not return the object")
    e = bo.bin_edges
    close("edges of theta", np.asarray(e[0]), np.linspace(0, TP, bins[0] + 1), rtol=1e-5, atol=1e-6)
    close("edges of phi", np.asarray(e[1]), np.linspace(0, np.pi, bins[1] + 1), rtol=1e-5, atol=1e-6)
    c = bo.bin_centers
    for k in range(2):
        close("bin_centers", np.asarray(c[k]), (np.asarray(e[k])[1:] + np.asarray(e[k])[:-1]) / 2, rtol=1e-5, atol=1e-6)
    bd = bo.bounds
    close("bounds", np.array(bd, dtype=float), np.array([[0, TP], [0, np.pi]]), rtol=1e-6, atol=1e-9)
    require(list(bo.nbins) == list(bins), "nbins")
    counts = check(d, bo, mode, bins, B.V, q[B.J].astype(float), qq[B.I].astype(float), 2 * ref.tol(b))
    d.nontrivial((counts > 0).sum() >= 2 and counts.sum() >= 3)
    require(bo.box == b.fb, "box")


def poles(d):
    """Explicit bonds along the axes and close to the poles."""
    import freud

    mode = d.choice(("bod", "lbod", "obcd", "oocd"))
    arg, bins = draw_bins(d)
    n = d.int(1, 12)
    V = np.zeros((n, 3), dtype=np.float32)
    for k in range(n):
        L = d.choice((1.0, 0.3, 2.5)) if d.bool() else d.float(0.01, 5)
        sgn = -1.0 if d.bool() else 1.0
        ax = d.choice((2, 2, 2, 0, 1))
        V[k, ax] = sgn * L
        if d.bool():
            e = d.choice((0.0, 1e-8, 1e-6, 1e-4, 1e-3)) * (-1 if d.bool() else 1)
            V[k, (ax + 1) % 3] = e
    b = gen.BoxSpec(20, 20, 20)
    rots = gen.rotation_choices()
    q = rots[[d.draw(23) for _ in range(n)]].astype(np.float32)
    qq = rots[[d.draw(23)]].astype(np.float32)
    nl = freud.locality.NeighborList.from_arrays(1, n, np.zeros(n, int), np.arange(n), V)
    P = np.zeros((n, 3), dtype=np.float32)
    bo = freud.environment.BondOrder(arg, mode)
    bo.compute((b.fb, P), q, P[:1], qq, neighbors=nl)
    d.note(mode=mode, bins=bins, vectors=V, orientations=q, query_orientations=qq)
    d.label(mode)
    d.nontrivial(n > 1)
    check(d, bo, mode, bins, V.astype(float), q.astype(float), np.tile(qq.astype(float), (n, 1)), 1e-6)


def frames(d):
    """The diagram is averaged over frames."""
    import freud

    mode = d.choice(("bod", "lbod", "obcd", "oocd"))
    arg, bins = draw_bins(d)
    bo = freud.environment.BondOrder(arg, mode)
    nf = d.int(2, 4)
    V, qp, qq = [], [], []
    t = 0
    for f in range(nf):
        s = gen.system(d, dims=3, nmin=2, nmax=12, query=False, wide=False)
        nl, (I, J, v, D, W) = gen.nlist(d, s)
        q = gen.quats(d, len(s.P))
        bo.compute((s.b.fb, s.P), q, neighbors=nl, reset=(f == 0) if d.bool() else (f == 0))
        V.append(v.astype(np.float32).astype(float))
        qp.append(q[J].astype(float))
        qq.append(q[I].astype(float))
        t = max(t, ref.tol(s.b))
        if d.bool(3):
            _ = bo.bond_order
    V, qp, qq = np.concatenate(V), np.concatenate(qp), np.concatenate(qq)
    d.label(mode)
    d.note(mode=mode, bins=bins, frames=nf)
    d.nontrivial(len(V) > 3)
    check(d, bo, mode, bins, V, qp, qq, 2 * t, frames=nf)


def rejects(d):
    import freud

    d.nontrivial()
    BO = freud.environment.BondOrder
    require(raises(lambda: BO(1)) and raises(lambda: BO((1, 5))) and raises(lambda: BO((5, 1))), "one bin accepted")
    require(raises(lambda: BO(4, "xyz"), ValueError), "unknown mode accepted")
    s = gen.system(d, dims=3, nmin=3, nmax=8, query=False)
    bo = BO(4)
    q = gen.quats(d, len(s.P))
    a = {"r_max": gen.rmax(d, s.b)}
    require(raises(lambda: bo.compute((s.b.fb, s.P), q), NotImplementedError), "missing neighbors accepted")
    require(raises(lambda: bo.compute((s.b.fb, s.P), q[:-1], neighbors=a)), "too few orientations accepted")
    require(raises(lambda: bo.compute((s.b.fb, s.P), q, s.P[:-1], q, neighbors=a)), "wrong query orientations accepted")
    bo.compute((s.b.fb, s.P), q, neighbors=a)
    require(np.asarray(bo.bond_order).shape == (4, 4), "compute after failures")


SUBS = [Sub(diagram, 5000), Sub(poles, 3000), Sub(frames, 1200), Sub(rejects, 100)]
