"""C20: Debye static structure factor."""

import numpy as np
import scipy.special

from .. import gen, ref
from ..engine import Discard, Sub, close, raises, require, same_shape

PROP = "C20"
RULE = ("2D and 3D boxes of any tilt and size, 1 to 60 points, separate query points with N_total, 2 to 50 k values, "
        "k_min 0 or positive, k_max from below 1/box to many oscillations, 1 to 4 accumulated frames in different boxes. "
        "Oracle: the double sum of sinc or J0 in float64 over wrapped distances. Relations: partials of a random "
        "partition sum to the total, S(0) = N. Non-trivial: at least three points at distinct distances.")


def kernel(b, x):
    return scipy.special.j0(x) if b.is2D else np.sinc(x / np.pi)


def debye(b, P, Q, k, n):
    """S(k) and a bound of the rounding errors."""
    D = ref.pairs(b, P, Q)[3]
    x = k[:, None] * D[None, :]
    s = kernel(b, x)
    # distances and k in single precision
    e = np.minimum(2.0, 0.6 * (k[:, None] * ref.tol(b) + 4e-7 * np.abs(x)))
    return s.sum(axis=1) / n, e.sum(axis=1) / n + 4e-7 * np.abs(s).sum(axis=1) / n + 1e-7 * len(D) / n


def params(d, b):
    nk = d.int(2, 50)
    L = b.volume ** (1 / b.dims)
    kmax = float(np.float32(d.choice((0.3, 5.0, 30.0, 100.0)) * d.float(0.3, 1.0) * 2 * np.pi / L))
    kmin = 0.0 if d.bool() else float(np.float32(d.float(0.0, 0.9) * kmax))
    return nk, kmax, kmin


def debye_sum(d):
    import freud

    s = gen.system(d, nmax=60)
    b = s.b
    nk, kmax, kmin = params(d, b)
    sf = freud.diffraction.StaticStructureFactorDebye(nk, kmax, kmin)
    k = np.linspace(kmin, kmax, nk)
    close("k_values", np.asarray(sf.k_values, float), k, rtol=2e-6, atol=2e-6 * kmax)
    require(sf.num_k_values == nk, "num_k_values")
    close("bounds", np.array(sf.bounds), np.array([kmin, kmax]), rtol=2e-6, atol=2e-6 * kmax)
    close("k_min, k_max", np.array([sf.k_min, sf.k_max]), np.array([kmin, kmax]), rtol=2e-6, atol=2e-6 * kmax)
    k = np.maximum(np.asarray(sf.k_values, float), 0)
    frames = []
    nf = d.weighted((3, 1), (1, 2), (1, 3), (1, 4))
    for i in range(nf):
        if i:
            b2 = gen.box(d, dims=b.dims, wide=False) if d.bool() else b
            P = gen.points(d, b2, d.int(1, 20))
            same = d.bool()
            s2 = gen.System(b2, P, P if same else gen.points(d, b2, d.int(1, 20)), same)
        else:
            s2 = s
        n = len(s2.P) if s2.same else d.choice((len(s2.P) + len(s2.Q), 7))
        frames.append((s2, n))
    want, tol, mk = 0, 0, []
    if any(ref.ambiguous(x.b, x.P, x.Q) for x, _ in frames):
        raise Discard("separation of half the box")
    for i, (s2, n) in enumerate(frames):
        kw = {} if s2.same else {"query_points": s2.Q, "N_total": n}
        sf.compute((s2.b.fb, s2.P), reset=(i == 0 and d.bool()), **kw)
        w, t = debye(s2.b, s2.P, s2.Q, k, n)
        want, tol = want + w / nf, tol + t / nf
        L = [s2.b.Lx, s2.b.Ly] + ([] if s2.b.is2D else [s2.b.Lz])
        mk.append(4 * np.pi / min(L))
    d.note(k=[nk, kmax, kmin], frames=[(x.desc(), n) for x, n in frames])
    d.label(f"frames:{nf}")
    S = same_shape("S_k", sf.S_k, (nk,)).astype(float)
    d.nontrivial(len(np.unique(np.round(ref.pairs(b, s.P, s.Q)[3], 4))) >= 3)
    close("S_k", S, want, rtol=2e-6, atol=tol)
    close("min_valid_k", float(sf.min_valid_k), min(mk), rtol=1e-5, atol=0)
    if nf == 1 and s.same and kmin == 0:
        close("S(0)", S[0], float(len(s.P)), rtol=1e-5, atol=2 * tol[0])


def partition(d):
    import freud

    b = gen.box(d)
    n = d.int(2, 40)
    P = gen.points(d, b, n)
    if ref.ambiguous(b, P, P):
        raise Discard("separation of half the box")
    nk, kmax, kmin = params(d, b)
    types = d.int(2, 4)
    lab = d.rng().integers(0, types, n)
    sf = freud.diffraction.StaticStructureFactorDebye(nk, kmax, kmin)
    total = np.array(sf.compute((b.fb, P)).S_k, float)
    full = np.array(sf.compute((b.fb, P), query_points=P, N_total=n).S_k, float)
    k = np.maximum(np.asarray(sf.k_values, float), 0)
    _, tol = debye(b, P, P, k, n)
    close("query points equal to the points", full, total, rtol=1e-5, atol=1e-6)
    s = 0
    for a in range(types):
        for c in range(types):
            A, C = P[lab == a], P[lab == c]
            if len(A) and len(C):
                x = np.array(sf.compute((b.fb, A), query_points=C, N_total=n).S_k, float)
                y = np.array(sf.compute((b.fb, C), query_points=A, N_total=n).S_k, float)
                close("exchanging points and query points", y, x, rtol=1e-5, atol=2 * tol)
                s = s + x
    d.note(box=b.desc(), points=P, types=lab, k=[nk, kmax, kmin])
    d.nontrivial(len(set(lab.tolist())) > 1)
    close("sum of the partial structure factors", s, total, rtol=1e-5, atol=2 * tol)


def rejects(d):
    import freud

    F = freud.diffraction.StaticStructureFactorDebye
    d.nontrivial()
    x = d.float(0.1, 10)
    for a in ((0, x), (1, x), (5, 0), (5, -x), (5, x, -0.1), (5, x, x), (5, x, 2 * x)):
        require(raises(lambda: F(*a)), "accepted", args=a)
    b = gen.box(d)
    P = gen.points(d, b, 3)
    f = F(4, x)
    require(raises(lambda: f.S_k, AttributeError) and raises(lambda: f.min_valid_k, AttributeError), "before compute")
    require(raises(lambda: f.compute((b.fb, P), query_points=P)), "query points without N_total")
    require(raises(lambda: f.compute((b.fb, P), N_total=3)), "N_total without query points")


SUBS = [Sub(debye_sum, 3000), Sub(partition, 1500), Sub(rejects, 100)]
