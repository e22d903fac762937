"""C23: hexatic order."""

import numpy as np

from .. import gen, ref
from ..engine import Discard, Sub, close, fail, raises, require
from . import common

PROP = "C23"
RULE = ("Random 2D systems (tilted boxes, lattices, duplicates), k from 0 to 12, weighted or not, default neighbors, "
        "query arguments or neighbor lists with weights. Oracle: float64 weighted mean of exp(i k theta) over the "
        "wrapped bonds; |psi| <= 1; a rotation of an isolated cluster of points or of the whole box by 90 degrees "
        "turns the phase by k alpha; signed: weights of both signs. Non-trivial: a particle with at least two neighbors.")


def reference(b, P, I, J, W, k):
    """psi, tolerance (nan where undefined)."""
    P = P.astype(float)
    n = len(P)
    raw = P[J] - P[I]
    V = ref.wrap(b, raw) if len(I) else np.zeros((0, 3))
    D = np.hypot(V[:, 0], V[:, 1])
    th = np.arctan2(V[:, 1], V[:, 0])
    t = ref.tol(b)
    f = np.abs(ref.frac(b, V)[:, :2]) if len(I) else np.zeros((0, 2))
    # bonds of zero length or of half the box have no definite angle
    undef = (D < 20 * t) | np.any(f > 0.5 - 1e-5, axis=1)
    e = np.where(undef, np.inf, k * (2 * t / np.where(undef, 1, D) + 1e-6) + 1e-6)
    psi = np.zeros(n, dtype=complex)
    tot = np.zeros(n)
    err = np.zeros(n)
    np.add.at(psi, I, W * np.exp(1j * k * th))
    np.add.at(tot, I, W)
    np.add.at(err, I, W * np.minimum(e, 1e9))
    with np.errstate(all="ignore"):
        psi, err = psi / tot, err / tot
    err = np.where((tot > 0), err, np.inf)
    return psi, err + 1e-6 * np.bincount(I, minlength=n)[:n], tot


def compare(name, got, psi, err, **info):
    got = np.asarray(got, dtype=complex)
    require(got.shape == psi.shape, f"{name}: shape", got=got.shape)
    ok = err < 1e3
    bad = ok & ~(np.abs(got - psi) <= err)
    if np.any(bad):
        k = int(np.argmax(bad))
        fail(f"{name}: wrong order of particle", particle=k, got=got[k], want=psi[k], tol=err[k], **info)
    require(np.all(np.abs(got[ok]) <= 1 + 1e-5), f"{name}: magnitude above one", got=np.abs(got[ok]).max()
            if ok.any() else 0)
    return ok


def definition(d):
    import freud

    s = gen.system(d, dims=2, query=False, nmax=60, nmin=1)
    k = d.choice((6, 4, 1, 2, 3, 5, 8, 12, 0))
    weighted = d.bool()
    kw = {"mode": "nearest", "num_neighbors": k}
    if not s.b.ortho or k == 0:
        B = common.bonds(d, s, kinds=("list", "ball", "nearest"))
    else:
        B = common.bonds(d, s, default_args=kw)
    o = freud.order.Hexatic(k=k, weighted=weighted) if k != 6 or weighted or d.bool() else freud.order.Hexatic()
    require(o.k == k and o.weighted == weighted, "parameters", k=o.k, weighted=o.weighted)
    got = o.compute(B.sys, neighbors=B.neighbors).particle_order
    W = B.W if weighted else np.ones(len(B))
    psi, err, tot = reference(s.b, s.P, B.I, B.J, W, k)
    ok = compare("hexatic", got, psi, err, k=k, weighted=weighted)
    # positive weights bound the magnitude everywhere
    fin = np.isfinite(np.abs(got)) & (tot > 0)
    require(np.all(fin | (tot == 0)), "order of a particle with neighbors is not finite")
    require(np.all(np.abs(got[fin]) <= 1 + 1e-5), "magnitude above one")
    d.nontrivial(np.any(np.bincount(B.I, minlength=1) >= 2) and ok.any())


def signed(d):
    """Weights of both signs."""
    import freud

    s = gen.system(d, dims=2, query=False, nmax=30, nmin=2)
    _, (I, J, V, D, W) = gen.nlist(d, s, kind="random")
    W = (W * d.rng().uniform(0.1, 3, len(W)) * np.where(d.rng().random(len(W)) < 0.3, -1, 1)).astype(np.float32)
    n = len(s.P)
    nl = freud.locality.NeighborList.from_arrays(n, n, I, J, V.astype(np.float32), W)
    k = d.choice((6, 4, 1, 2, 3))
    got = np.asarray(freud.order.Hexatic(k, True).compute((s.b.fb, s.P), nl).particle_order, dtype=complex)
    W = W.astype(float)
    _, err, size = reference(s.b, s.P, I, J, np.abs(W), k)
    z = np.zeros(n, dtype=complex)
    tot = np.zeros(n)
    Vw = ref.wrap(s.b, s.P[J].astype(float) - s.P[I])
    np.add.at(z, I, W * np.exp(1j * k * np.arctan2(Vw[:, 1], Vw[:, 0])))
    np.add.at(tot, I, W)
    ok = (np.abs(tot) > 0.1 * size) & (err < 1e3)
    for i in np.flatnonzero(ok):
        tol = (err[i] + 1e-5) * size[i] / abs(tot[i]) * 3
        require(abs(got[i] - z[i] / tot[i]) <= tol * (1 + abs(z[i] / tot[i])), "order with weights of both signs", particle=int(i), got=got[i],
                want=z[i] / tot[i], weights=W[I == i])
    d.nontrivial(any((W[I == i] < 0).any() for i in np.flatnonzero(ok)))


def rotated(d):
    """Rotation by any angle of points in the middle of a large square box."""
    import freud

    L = d.choice((20.0, 10.0, 100.0))
    n = d.int(2, 25)
    R = 0.2 * L
    r = R * np.sqrt([d.unit() for _ in range(n)])
    a = np.array([2 * np.pi * d.unit() for _ in range(n)])
    P = np.stack([r * np.cos(a), r * np.sin(a), 0 * r], axis=1)
    al = d.choice((np.pi / 2, np.pi / 3, np.pi)) if d.bool(3) else d.float(-7, 7)
    c, s_ = np.cos(al), np.sin(al)
    P2 = P @ np.array([[c, s_, 0], [-s_, c, 0], [0, 0, 1]])
    b = gen.BoxSpec(L, L, 0, is2D=True)
    P, P2 = P.astype(np.float32), P2.astype(np.float32)
    k = d.choice((6, 4, 1, 2, 3, 12))
    nn = d.int(1, max(1, n - 1))
    I, J, V, D = ref.pairs(b, P, P)
    keep = I != J
    I, J, V, D = I[keep], J[keep], V[keep], D[keep]
    if len(D) and D.min() < 1e-3 * L:
        raise Discard("close points")
    Dm = np.sort(D.reshape(n, n - 1), axis=1)
    if nn < n - 1 and np.any(Dm[:, nn] - Dm[:, nn - 1] < 1e-4 * L):
        raise Discard("ties")
    w = d.bool()
    args = {"num_neighbors": nn, "exclude_ii": True}
    if w:
        W = d.rng().uniform(0.1, 2, len(I)).astype(np.float32)
        nl = freud.locality.NeighborList.from_arrays(n, n, I, J, V.astype(np.float32), W)
        V2 = ref.pairs(b, P2, P2)[2][keep]
        nl2 = freud.locality.NeighborList.from_arrays(n, n, I, J, V2.astype(np.float32), W)
    else:
        nl = nl2 = args
    o = freud.order.Hexatic(k, w)
    p1 = np.array(o.compute((b.fb, P), nl).particle_order, dtype=complex)
    p2 = np.array(o.compute((b.fb, P2), nl2).particle_order, dtype=complex)
    d.note(points=P, alpha=al, k=k, L=L, num_neighbors=nn)
    close("rotated order", p2, p1 * np.exp(1j * k * al), rtol=0, atol=k * 3e-3 * 0.2 + 1e-4)
    d.nontrivial(nn >= 2)


def quarter(d):
    """Rotation of a periodic box by 90 degrees."""
    import freud

    s = gen.system(d, dims=2, kinds=("cubic", "ortho"), query=False, nmax=60, nmin=2,
                   style=d.choice(("uniform", "cluster")))
    if s.b.ortho is False:
        raise Discard("tilted")
    b2 = gen.BoxSpec(s.b.Ly, s.b.Lx, 0, is2D=True)
    P2 = np.stack([-s.P[:, 1], s.P[:, 0], 0 * s.P[:, 0]], axis=1)
    r = gen.rmax(d, s.b)
    I, J, V, D = ref.pairs(s.b, s.P, s.P)
    t = ref.tol(s.b)
    if np.any(np.abs(D - r) < 2 * t):
        raise Discard("at the cutoff")
    k = d.choice((6, 4, 1, 2, 3))
    o = freud.order.Hexatic(k)
    args = {"r_max": r, "exclude_ii": True}
    p1 = np.array(o.compute((s.b.fb, s.P), args).particle_order, dtype=complex)
    p2 = np.array(o.compute((b2.fb, P2), args).particle_order, dtype=complex)
    sel = (D < r) & (I != J)
    psi, err, tot = reference(s.b, s.P, I[sel], J[sel], np.ones(sel.sum()), k)
    ok = err < 1e3
    require(np.all(np.abs(p2 - p1 * 1j ** k)[ok] <= 2 * err[ok]), "order of the box rotated by 90 degrees", p1=p1, p2=p2)
    d.nontrivial(ok.any())


def rejects3d(d):
    import freud

    s = gen.system(d, dims=3, query=False, nmin=2, nmax=10)
    o, args = freud.order.Hexatic(d.choice((6, 4))), {"r_max": gen.rmax(d, s.b)}
    require(raises(lambda: o.compute((s.b.fb, s.P), args)), "3D box accepted")
    d.nontrivial()


def image_bonds():
    """Hexatic replaces the vectors of bonds to farther images of a point by those to its nearest image."""
    import freud

    P = np.array([[0, 0, 0], [1, 0, 0]], dtype=np.float32)
    V = np.array([[1, 4, 0]], dtype=np.float32)
    nl = freud.locality.NeighborList.from_arrays(2, 2, np.array([0]), np.array([1]), V)
    psi = freud.order.Hexatic(1).compute((freud.box.Box(4, 4, 0), P), nl).particle_order
    return abs(psi[0] - np.exp(1j * np.arctan2(4, 1))) > 0.1


KNOWN = [("image-bonds", image_bonds)]
SUBS = [Sub(definition, 900), Sub(signed, 300), Sub(rotated, 300), Sub(quarter, 300), Sub(rejects3d, 30)]
