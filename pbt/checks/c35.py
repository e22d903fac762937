"""C35: Steinhardt order parameters and solid-liquid clusters."""

from fractions import Fraction
from functools import lru_cache
from math import factorial

import numpy as np

from .. import gen, ref
from ..engine import Discard, Sub, close, equal, require, same_shape
from .common import bonds, nl_arrays
from .common import same_parameters

PROP = "C35"
RULE = ("2D and 3D boxes of any tilt, random points and perturbed lattices, neighbors as lists (with weights, with bonds to "
        "images of the same point), query arguments or Voronoi lists; one to three l of 0 to 20, average, weighted, wl "
        "and wl_normalize in every combination; reused objects. Oracle: float64 spherical harmonics over the bond "
        "vectors, the addition theorem (Legendre polynomials of the angles between bonds) for ql, Racah's exact 3j "
        "symbols for wl; for SolidLiquid the normalised products, counts and connected components. Metamorphic: "
        "rotating all bonds changes no invariant. Non-trivial: some particle with two or more bonds.")


@lru_cache(None)
def wigner3j(l):
    """The 3j symbols (l l l; m1 m2 m3) as an array over m1, m2 (Racah's formula, exact up to the last root)."""
    out = np.zeros((2 * l + 1, 2 * l + 1))
    delta = Fraction(factorial(l) ** 3, factorial(3 * l + 1))
    for m1 in range(-l, l + 1):
        for m2 in range(-l, l + 1):
            m3 = -m1 - m2
            if abs(m3) > l:
                continue
            f = delta
            for m in (m1, m2, m3):
                f *= factorial(l + m) * factorial(l - m)
            s = Fraction(0)
            for k in range(0, l + 1):
                den = [k, l - k, l - m1 - k, l + m2 - k, k + m1, k - m2]
                if min(den) < 0:
                    continue
                p = 1
                for x in den:
                    p *= factorial(x)
                s += Fraction((-1) ** k, p)
            out[m1 + l, m2 + l] = (-1) ** (m3 % 2) * (1 if s > 0 else -1 if s < 0 else 0) * float(f * s * s) ** 0.5
    return out


def harmonics(l, V):
    """(n, 2l+1) Y_lm of the vectors V in the order m = 0..l, -1..-l, by recurrences in float64."""
    n = len(V)
    r = np.sqrt((V ** 2).sum(axis=1))
    z = np.where(r > 0, V[:, 2] / np.where(r > 0, r, 1), 1.0)
    phi = np.arctan2(V[:, 1], V[:, 0])
    s = np.sqrt(np.maximum(0, 1 - z * z))
    out = np.zeros((n, 2 * l + 1), dtype=complex)
    pmm = np.full(n, np.sqrt(1 / (4 * np.pi)))
    for m in range(l + 1):
        if m:
            pmm = -pmm * s * np.sqrt((2 * m + 1) / (2.0 * m))
        a, p = np.zeros(n), pmm
        for k in range(m + 1, l + 1):
            c = np.sqrt((4.0 * k * k - 1) / (k * k - m * m))
            e = np.sqrt(((k - 1.0) ** 2 - m * m) / (4 * (k - 1.0) ** 2 - 1))
            a, p = p, c * (z * p - e * a)
        y = p * np.exp(1j * m * phi)
        out[:, m] = y
        if m:
            out[:, l + m] = (-1) ** m * np.conj(y)
    return out


def angle_error(l, V):
    """Bound on the error of Y_l of V: the polar angle is found in float32 from its cosine."""
    r = np.sqrt((V ** 2).sum(axis=1))
    s = np.sqrt((V[:, :2] ** 2).sum(axis=1)) / np.where(r, r, 1)
    dt = np.minimum(5e-4, 2.5e-7 / np.maximum(s, 1e-9))
    return dt * np.sqrt((2 * l + 1) / (4 * np.pi)) * np.sqrt(l * (l + 1.0))


def wl_of(q, l):
    """Sum over m1 + m2 + m3 = 0 of 3j q q q, for q in the order 0..l, -1..-l."""
    full = np.concatenate([q[..., :l:-1], q[..., :l + 1]], axis=-1)  # -l..l
    w = wigner3j(l)
    out = 0
    for a in range(2 * l + 1):
        for b in range(2 * l + 1):
            c = 3 * l - a - b
            if 0 <= c <= 2 * l and w[a, b]:
                out = out + w[a, b] * full[..., a] * full[..., b] * full[..., c]
    return np.real(out) + np.zeros(q.shape[:-1])


def setup(d, image_bonds=True):
    import freud

    how = d.weighted((3, "any"), (2, "lattice"), (1, "images" if image_bonds else "any"), (1, "voronoi"))
    if how == "any":
        s = gen.system(d, query=False, nmin=1, nmax=40, wide=False)
        B = bonds(d, s)
        return s, B.sys, B.neighbors, (B.I, B.J, B.V, B.W)
    if how == "lattice":
        b = gen.box(d, dims=3, kinds=("cubic", "ortho", "mild"), wide=False, Lmin=5)
        m = d.int(2, 4)
        F = np.array([(i, j, k) for i in range(m) for j in range(m) for k in range(m)]) / m
        g = d.rng()
        F = (F + g.random(3) + d.choice((0.0, 0.03, 0.1)) * g.normal(size=F.shape) / m) % 1
        P = gen.from_frac(b, F)
    elif how == "images":
        # a list of bonds to any images
        b = gen.box(d, wide=False)
        P = gen.points(d, b, d.int(1, 6), "uniform")
    else:
        b = gen.box(d, wide=False, Lmin=5, kinds=("cubic", "ortho", "mild"))
        P = gen.points(d, b, d.int(1, 12), "uniform")
        D = ref.pairs(b, P, P)[3] + 1e9 * np.eye(len(P)).ravel()
        if D.min() < 0.05:
            raise Discard("nearly coincident points")
    d.label(how)
    d.note(box=b.desc(), points=P)
    s = gen.System(b, P, P, True)
    if how == "lattice":
        nq = freud.locality.AABBQuery(b.fb, P)
        nl = nq.query(P, {"num_neighbors": d.choice((6, 8, 12)) if len(P) > 12 else 4, "exclude_ii": True,
                          "r_max": 0.95 * b.rhalf}).toNeighborList()
    elif how == "voronoi":
        nl = freud.locality.Voronoi().compute((b.fb, P)).nlist
    else:
        k = d.int(1, 12)
        g = d.rng()
        I = np.sort(g.integers(0, len(P), k))
        J = g.integers(0, len(P), k)
        T = g.integers(-1, 2, (k, 3))
        if b.is2D:
            T[:, 2] = 0
        V = P[J].astype(float) - P[I] + T @ b.M.T
        r = np.sqrt((V ** 2).sum(axis=1))
        ok = r > 1e-3
        I, J, V, r = I[ok], J[ok], V[ok], r[ok]
        o = np.lexsort((r, J, I))
        I, J, V = I[o], J[o], V[o]
        nl = freud.locality.NeighborList.from_arrays(len(P), len(P), I, J, V.astype(np.float32),
                                                     g.uniform(0.2, 2, len(I)).astype(np.float32))
    I, J, D, V, W = nl_arrays(nl)
    return s, (b.fb, P), nl, (I, J, V, W)


def accumulate(n, I, X):
    out = np.zeros((n,) + X.shape[1:], dtype=X.dtype)
    np.add.at(out, I, X)
    return out


def steinhardt(d):
    import freud

    s, sys, neighbors, (I, J, V, W) = setup(d)
    n = len(s.P)
    nl = d.int(1, 3)
    ls = [d.choice((6, 4, 2, 3, 8, 12, 0, 1, 5, 7, 10, 20, 16, 11)) for _ in range(nl)]
    avg, wl, weighted, norm = d.bool(), d.bool(), d.bool(), d.bool()
    st = freud.order.Steinhardt(ls if nl > 1 or d.bool() else ls[0], average=avg, wl=wl, weighted=weighted, wl_normalize=norm)
    if d.bool(3):
        st.compute((s.b.fb, gen.points(d, s.b, 7, "uniform")), {"num_neighbors": 3, "r_max": 0.9 * s.b.rhalf})
    st.compute(sys, neighbors)
    d.note(l=ls, average=avg, wl=wl, weighted=weighted, wl_normalize=norm)
    d.label(*(f"l{x}" for x in ls), "avg" if avg else "plain", "wl" if wl else "ql")
    w = W if weighted else np.ones(len(I))
    tot = accumulate(n, I, w)
    cnt = np.bincount(I, minlength=n)
    ql = np.asarray(st.ql).reshape(n, -1)
    po = np.asarray(st.particle_order).reshape(n, -1)
    order = np.atleast_1d(st.order)
    hs = st.particle_harmonics
    hs = [hs] if nl == 1 else hs
    require(ql.shape[1] == nl and po.shape[1] == nl and len(order) == nl and len(hs) == nl, "shapes")
    for c, l in enumerate(ls):
        Y = harmonics(l, V)
        with np.errstate(all="ignore"):
            q = accumulate(n, I, w[:, None] * Y) / tot[:, None]
        f = 4 * np.pi / (2 * l + 1)
        at = 2e-6 * (l + 4) + angle_error(l, V).max(initial=0) * np.sqrt(f)
        none = cnt == 0
        h = same_shape("particle_harmonics", hs[c], (n, 2 * l + 1))
        close("particle_harmonics" if not avg else "harmonics", np.where(none[:, None], 0, h) if not avg else np.zeros(0),
              np.where(none[:, None], 0, q) if not avg else np.zeros(0), rtol=1e-4, atol=at / np.sqrt(f), l=l)
        # the addition theorem
        Q2 = np.full(n, np.nan)
        for i in range(n):
            k = np.nonzero(I == i)[0]
            if len(k) and len(k) <= 40:
                r = np.sqrt((V[k] ** 2).sum(axis=1))
                U = np.where(r[:, None] > 0, V[k] / np.where(r, r, 1)[:, None], [0, 0, 1.0])
                x = np.clip(U @ U.T, -1, 1)
                Pl = np.polynomial.legendre.legval(x, [0] * l + [1])
                Q2[i] = (w[k, None] * w[k][None] * Pl).sum() / tot[i] ** 2
        # ql is the plain one regardless of average and wl
        require(np.array_equal(np.isnan(ql[:, c]), none), "ql is NaN exactly without neighbors", ql=ql[:, c], counts=cnt)
        m = ~np.isnan(Q2)
        close("ql squared", np.where(m, ql[:, c].astype(float), 0) ** 2, np.where(m, Q2, 0), rtol=2e-4, atol=2 * at, l=l)
        if avg:
            qa = np.zeros_like(q)
            np.add.at(qa, I, q[J])
            qa = (qa + q) / (cnt + 1)[:, None]
        else:
            qa = q
        qla = np.sqrt(f * (np.abs(qa) ** 2).sum(axis=1))
        bad = np.isnan(qla)
        if wl:
            want = wl_of(qa, l)
            tol = (3e-5 + 3 * at) * (1 + np.nan_to_num(np.sqrt((np.abs(qa) ** 2).sum(axis=1))) ** 2)
            if norm:
                with np.errstate(all="ignore"):
                    nn = (np.sqrt(f) / qla) ** 3
                want = want * nn
                tol = np.where(qla > 2e-2, tol * np.nan_to_num(nn, posinf=0), np.inf)
        else:
            want = qla
            tol = np.where(qla > 1e-3, 10 * at, np.sqrt(2 * at))
        free = np.zeros(n, dtype=bool) if not (wl and norm) else ~bad & (np.nan_to_num(qla) < 2e-2)  # 0 / 0 up to rounding
        require(np.array_equal(np.isnan(po[:, c])[~free], bad[~free]), "NaN in particle_order", got=po[:, c], l=l)
        close("particle_order", np.where(bad | np.isinf(tol), 0, po[:, c].astype(float)), np.where(bad | np.isinf(tol), 0, want),
              rtol=5e-4, atol=np.where(np.isinf(tol), 0, tol), l=l)
        # the system's order
        sysq = qa.mean(axis=0)
        so = np.sqrt(f * (np.abs(sysq) ** 2).sum())
        if np.isnan(so):
            require(np.isnan(order[c]), "order with particles without neighbors", got=order[c])
        elif wl:
            ws = float(wl_of(sysq, l))
            t = (3e-5 + 3 * at) * (1 + so ** 2)
            if norm:
                if so < 2e-2:
                    continue
                ws *= (np.sqrt(f) / so) ** 3
                t *= (np.sqrt(f) / so) ** 3
            close("order", float(order[c]), ws, rtol=5e-4, atol=t, l=l)
        else:
            close("order", float(order[c]), so, rtol=5e-4, atol=10 * at if so > 1e-3 else np.sqrt(2 * at), l=l)
    d.nontrivial(cnt.max(initial=0) >= 2 and max(ls) > 0)


def rotation(d):
    """Rotating all bond vectors changes no invariant."""
    import freud

    b = gen.box(d, dims=3, wide=False)
    n = d.int(1, 8)
    P = gen.points(d, b, n, "uniform")
    k = d.int(1, 30)
    g = d.rng()
    I = np.sort(g.integers(0, n, k))
    J = g.integers(0, n, k)
    V = g.normal(size=(k, 3)) * 0.1 * b.rhalf
    W = g.uniform(0.2, 2, k)
    o = np.lexsort((np.sqrt((V ** 2).sum(axis=1)), J, I))
    I, J, V = I[o], J[o], V[o]
    q = gen.unit_quat(d)
    R = np.array([ref.qrot(q, np.array(e, dtype=float)) for e in np.eye(3)]).T
    l = d.int(0, 20)
    avg, wl = d.bool(), d.bool()
    d.note(I=I, J=J, V=V, q=q, l=l, average=avg, wl=wl)
    out = []
    for X in (V, V @ R.T):
        nl = freud.locality.NeighborList.from_arrays(n, n, I, J, X.astype(np.float32), W.astype(np.float32))
        st = freud.order.Steinhardt(l, average=avg, wl=wl, weighted=d.bool() if False else True)
        st.compute((b.fb, P), nl)
        out.append((np.array(st.particle_order), np.array(st.ql), st.order))
    at = 5e-5
    for name, x, y in zip(("particle_order", "ql", "order"), *out):
        x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
        require(np.array_equal(np.isnan(x), np.isnan(y)), name + ": NaN differ")
        x, y = np.nan_to_num(x), np.nan_to_num(y)
        if name == "particle_order" and wl or name == "order" and wl:
            close(name, x, y, rtol=1e-3, atol=2e-4, l=l)
        else:
            close(name + " squared", x * x, y * y, rtol=1e-3, atol=at, l=l)
    d.nontrivial(np.bincount(I).max() >= 2 and l > 0)


def solid_liquid(d):
    import freud

    s, sys, neighbors, (I, J, V, W) = setup(d)
    n = len(s.P)
    l = d.choice((6, 4, 8, 3, 2, 12))
    qt = float(np.float32(d.choice((0.7, 0.5, 0.0, 0.3, 0.9))))
    thr = d.int(0, 8)
    normalize = d.bool()
    if not normalize:
        qt = float(np.float32(qt / 10))
    sl = freud.order.SolidLiquid(l, q_threshold=qt, solid_threshold=thr, normalize_q=normalize)
    if d.bool(3):
        sl.compute((s.b.fb, gen.points(d, s.b, 7, "uniform")), {"num_neighbors": 3, "r_max": 0.9 * s.b.rhalf})
    sl.compute(sys, neighbors)
    d.note(l=l, q_threshold=qt, solid_threshold=thr, normalize=normalize)
    i2, j2, D2, V2, W2 = nl_arrays(sl.nlist)
    equal("nlist query indices", i2, I)
    equal("nlist point indices", j2, J)
    cnt = np.bincount(I, minlength=n)
    with np.errstate(all="ignore"):
        q = accumulate(n, I, harmonics(l, V)) / cnt[:, None]
    want = np.real((q[I] * np.conj(q[J])).sum(axis=1))
    at = 2e-6 * (l + 4) + angle_error(l, V).max(initial=0)
    tol = np.full(len(I), 2e-5 + 2 * at)
    if normalize:
        m = np.sqrt((np.abs(q) ** 2).sum(axis=1))
        with np.errstate(all="ignore"):
            want = want / (m[I] * m[J])
            tol = tol / (m[I] * m[J])
    qij = same_shape("ql_ij", sl.ql_ij, (len(I),)).astype(float)
    none = (cnt[I] == 0) | (cnt[J] == 0)
    bad = none | ~(tol <= 1e-2)  # harmonics that vanish: 0 / 0 up to rounding
    require(np.all(np.isnan(qij[none])), "ql_ij of particles without neighbors")
    close("ql_ij", np.where(bad, 0, qij), np.where(bad, 0, want), rtol=2e-4, atol=np.where(bad, 0, tol))
    solid = qij > qt
    num = np.bincount(I[solid], minlength=n)
    equal("num_connections", np.asarray(sl.num_connections), num)
    use = solid & (num[I] >= thr) & (num[J] >= thr)
    lab = np.arange(n)

    def find(x):
        while lab[x] != x:
            x = lab[x]
        return x

    for a, c in zip(I[use], J[use]):
        lab[find(a)] = find(c)
    want = np.array([find(x) for x in range(n)])
    got = same_shape("cluster_idx", sl.cluster_idx, (n,)).astype(int)
    wu = {}
    for a, c in zip(want, got):
        require(wu.setdefault(a, c) == c, "cluster_idx: connected particles in different clusters", got=got, want=want)
    require(len(set(wu.values())) == len(wu), "cluster_idx: separate particles in one cluster", got=got, want=want)
    sizes = np.bincount(got)
    equal("cluster_sizes", np.asarray(sl.cluster_sizes), sizes)
    require(np.all(np.diff(sizes) <= 0), "clusters are not ordered by size", sizes=sizes)
    require(sl.largest_cluster_size == sizes.max(), "largest_cluster_size")
    h = same_shape("particle_harmonics", sl.particle_harmonics, (n, 2 * l + 1))
    ok = cnt > 0
    close("particle_harmonics", h[ok], q[ok], rtol=1e-4, atol=at)
    d.nontrivial(use.sum() > 0 and len(wu) > 1)
    d.label("normalized" if normalize else "plain")


def printed(d):
    """Parameters of the objects and of those rebuilt from their printed form."""
    import freud

    ls = [d.int(0, 12) for _ in range(d.int(1, 3))]
    f = [d.bool() for _ in range(4)]
    x = d.float(0, 1)
    n = d.int(0, 12)
    d.note(l=ls, flags=f, x=x, n=n)
    l = ls if len(ls) > 1 else ls[0]
    same_parameters(lambda: freud.order.Steinhardt(l, f[0], f[1], f[2], f[3]),
                    {"l": l, "average": f[0], "wl": f[1], "weighted": f[2], "wl_normalize": f[3]})
    same_parameters(lambda: freud.order.SolidLiquid(ls[0], x, n, f[0]),
                    {"l": ls[0], "q_threshold": x, "solid_threshold": n, "normalize_q": f[0]})
    d.nontrivial()


SUBS = [Sub(steinhardt, 3000), Sub(rotation, 800), Sub(solid_liquid, 2000), Sub(printed, 300)]
