"""C37: local descriptors."""

import numpy as np

from .. import gen, ref
from ..engine import Sub, close, equal, raises, require, same_shape
from .common import bonds, nl_arrays
from .c35 import angle_error, harmonics
from .common import same_parameters

PROP = "C37"
RULE = ("2D and 3D systems, query points, lists and query arguments, l_max 0 to 16, with and without negative m, all "
        "three orientation modes, any unit quaternions, max_num_neighbors below, at and above the numbers of neighbors; "
        "reused objects. Oracle: float64 spherical harmonics of the bonds, rotated by the conjugate orientation of their "
        "query point (particle_local), or, neighborhood: harmonics of the bonds in the frame of the eigenvectors of the "
        "inertia tensor up to the signs of the axes, and the addition theorem between bonds of one particle. "
        "Non-trivial: a query point with two or more bonds and l_max > 0.")


def columns(V, lmax, neg):
    """The columns in the documented order, without the Condon-Shortley phase for m > 0."""
    out = []
    for l in range(lmax + 1):
        Y = harmonics(l, V)
        m = np.arange(l + 1)
        out.append(Y[:, :l + 1] * (-1.0) ** m)
        if neg:
            out.append(Y[:, l + 1:])
    return np.concatenate(out, axis=1)


def definition(d):
    import freud

    s = gen.system(d, nmax=30, wide=False)
    B = bonds(d, s)
    n = len(s.Q)
    lmax = d.choice((4, 0, 1, 2, 3, 6, 8, 12, 16))
    neg = d.bool()
    mode = d.choice(("global", "particle_local", "neighborhood"))
    most = d.choice((0, 0, 1, 2, 3, 5, 100))
    o = freud.environment.LocalDescriptors(lmax, neg, mode) if d.bool() else \
        freud.environment.LocalDescriptors(l_max=lmax, negative_m=neg, mode=mode)
    qs = gen.quats(d, n)
    kw = B.kw()
    if mode == "particle_local":
        kw["orientations"] = qs
    if d.bool(3):
        o.compute((s.b.fb, s.P[:1]), neighbors={"r_max": 0.4 * s.b.rhalf, "exclude_ii": False}, orientations=qs[:1])
    d.note(l_max=lmax, negative_m=neg, mode=mode, max_num_neighbors=most)
    d.label(mode, "neg" if neg else "nonneg", f"max{most}")
    o.compute(B.sys, max_num_neighbors=most, **kw)
    I, J, V = B.I, B.J, B.V
    i2, j2, D2, V2, W2 = nl_arrays(o.nlist)
    equal("nlist query indices", i2, I)
    equal("nlist point indices", j2, J)
    require(o.num_sphs == len(I), "num_sphs", got=o.num_sphs, want=len(I))
    require(o.l_max == lmax and o.negative_m == neg and o.mode == mode, "parameters")
    width = (lmax + 1) ** 2 if neg else (lmax + 1) * (lmax + 2) // 2
    sph = same_shape("sph", o.sph, (len(I), width)).astype(complex)
    rank = np.arange(len(I)) - np.searchsorted(I, I)
    use = rank < most if most else np.ones(len(I), dtype=bool)
    require(np.all(sph[~use] == 0), "values for bonds beyond max_num_neighbors", rows=np.nonzero(~use)[0])
    r = np.sqrt((V ** 2).sum(axis=1))
    cnt = np.bincount(I[use], minlength=n)
    d.nontrivial(cnt.max(initial=0) >= 2 and lmax > 0)
    use &= r > 1e-4 * s.b.scale
    U, got = V[use], sph[use]
    if mode == "neighborhood":
        l0 = 0
        Iu = I[use]
        for i in np.unique(Iu):
            k = np.nonzero(Iu == i)[0]
            X = U[k] / np.sqrt((U[k] ** 2).sum(axis=1))[:, None]
            if neg:
                # products of harmonics depend on the angle between bonds only
                c = np.clip(X @ X.T, -1, 1)
                l0 = 0
                for l in range(lmax + 1):
                    y = got[k][:, l0:l0 + 2 * l + 1]
                    l0 += 2 * l + 1
                    P = np.polynomial.legendre.legval(c, [0] * l + [1]) * (2 * l + 1) / (4 * np.pi)
                    # the polar angles are found by acos of float32 cosines
                    close("products of the harmonics of two bonds", np.real(y @ np.conj(y).T), P, rtol=0,
                          atol=2e-3 * (1 + l) ** 2 * (2 * l + 1) / 10, l=l, query_point=i)
            allk = np.nonzero((I == i) & ((rank < most) if most else True))[0]
            T = np.eye(3) * (V[allk] ** 2).sum() - V[allk].T @ V[allk]
            w, E = np.linalg.eigh(T)
            if w[2] > 0 and min(w[1] - w[0], w[2] - w[1]) > 0.05 * w[2]:
                Z = U[k] @ E
                t = np.maximum(3e-4, 20 * angle_error(lmax, Z).max()) * (1 + lmax)
                best = min(np.abs(got[k] - columns(Z * sg, lmax, neg)).max()
                           for sg in np.array(np.meshgrid([1, -1], [1, -1], [1, -1])).reshape(3, -1).T)
                require(best <= t, "sph in the frame of the principal axes", query_point=i, error=best, tol=t)
                d.label("frame")
        return
    if mode == "particle_local":
        c = np.array([1, -1, -1, -1])
        U = np.array([ref.qrot(qs[i].astype(float) * c, v) for i, v in zip(I[use], U)]).reshape(-1, 3)
    t = 3e-6 * (lmax + 3) + 3 * angle_error(lmax, U) + 2e-5 * (lmax + 1) ** 1.5 * (mode == "particle_local")
    # the azimuth of bonds near the axis
    close("sph", got, columns(U, lmax, neg), rtol=1e-5, atol=t[:, None] + np.zeros((1, width)))


def rejects(d):
    import freud

    s = gen.system(d, nmin=2, nmax=10, query=True, wide=False)
    n = len(s.Q)
    o = freud.environment.LocalDescriptors(3, mode="particle_local")
    args = {"r_max": 0.5 * s.b.rhalf}
    m = d.choice((n + 1, 0, n + 5, max(n - 1, 0)))
    d.note(n=n, m=m)
    if m != n:
        require(raises(lambda: o.compute((s.b.fb, s.P), s.Q, gen.quats(d, m), args)), "wrong number of orientations accepted",
                n=n, m=m)
    require(raises(lambda: o.compute((s.b.fb, s.P), s.Q, neighbors=args)), "particle_local without orientations accepted")
    require(raises(lambda: freud.environment.LocalDescriptors(3, mode="local"), ValueError), "unknown mode accepted")
    require(raises(lambda: o.sph, AttributeError), "sph before compute")
    d.nontrivial()


def printed(d):
    """Parameters of the objects and of those rebuilt from their printed form."""
    import freud

    l, f = d.int(0, 12), d.bool()
    m = d.choice(("neighborhood", "global", "particle_local"))
    d.note(l_max=l, negative_m=f, mode=m)
    same_parameters(lambda: freud.environment.LocalDescriptors(l, f, m), {"l_max": l, "negative_m": f, "mode": m})
    d.nontrivial()


SUBS = [Sub(definition, 4000), Sub(rejects, 100), Sub(printed, 300)]
