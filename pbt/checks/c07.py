"""C07: NeighborList operations against a plain list of bonds."""

import numpy as np

from .. import gen, ref
from ..engine import Sub, close, equal, fail, raises, require, same_shape

PROP = "C07"
RULE = ("Random bond arrays (0 to 40 bonds, duplicate bonds, query points without bonds, arbitrary vectors and weights) "
        "and histories of up to 8 operations (filter by mask, filter by distance, both sorts, copies, mutation of "
        "copies) are applied to a NeighborList and to a plain list of bonds; all accessors are compared after each "
        "step. Non-trivial: at least three bonds and two operations that change something.")


def nlclass():
    import freud

    return freud.locality.NeighborList


class Model:
    def __init__(self, nq, npt, bonds):
        self.nq, self.np, self.bonds = nq, npt, list(bonds)  # (i, j, vec tuple, dist float32, weight)

    def copy(self):
        return Model(self.nq, self.np, self.bonds)


def draw_bonds(d, nq, npt, nmax=40):
    n = 0 if d.bool(12) else (d.int(1, 8) if d.bool() else d.int(1, nmax))
    I = sorted(d.draw(nq - 1) for _ in range(n))
    J = [d.draw(npt - 1) for _ in range(n)]
    coarse = d.bool()  # coarse vectors give ties in distance
    V = []
    for _ in range(n):
        if coarse:
            V.append([float(d.int(-3, 3)) for _ in range(3)])
        else:
            V.append([d.f32(-3, 3) for _ in range(3)])
    V = np.array(V, dtype=np.float32).reshape(n, 3)
    W = None if d.bool() else np.array([d.f32(0.1, 3) for _ in range(n)], dtype=np.float32)
    return I, J, V, W


def build(d, nq, npt):
    I, J, V, W = draw_bonds(d, nq, npt)
    nl = nlclass().from_arrays(nq, npt, np.array(I, dtype=int), np.array(J, dtype=int), V, W)
    dist = np.sqrt((V.astype(np.float64) ** 2).sum(axis=1))
    w = np.ones(len(I)) if W is None else W
    return nl, Model(nq, npt, [(I[k], J[k], tuple(V[k].tolist()), float(dist[k]), float(w[k])) for k in range(len(I))])


def compare(name, nl, m, tie=None):
    """All accessors of nl agree with the model; tie groups are compared as multisets and their order adopted."""
    n = len(m.bonds)
    require(len(nl) == n, f"{name}: length", got=len(nl), want=n)
    idx = same_shape(name + ": [:]", nl[:], (n, 2))
    I, J = same_shape(name + ": query_point_indices", nl.query_point_indices, (n,)), same_shape(
        name + ": point_indices", nl.point_indices, (n,))
    V = same_shape(name + ": vectors", nl.vectors, (n, 3))
    D = same_shape(name + ": distances", nl.distances, (n,))
    W = same_shape(name + ": weights", nl.weights, (n,))
    got = [(int(I[k]), int(J[k]), tuple(np.asarray(V[k]).tolist()), float(D[k]), float(W[k])) for k in range(n)]
    if tie is not None:
        # bonds equal under the sort key may come in any order
        key = [tie(x) for x in got]
        require(all(key[k] <= key[k + 1] for k in range(n - 1)), f"{name}: not sorted", got=key[:10])
        order = sorted(range(n), key=lambda k: tie(m.bonds[k]))
        want = [m.bonds[k] for k in order]

        def canon(x):
            return (x[0], x[1], x[2], x[4])

        require(sorted(map(canon, got)) == sorted(map(canon, want)), f"{name}: bonds changed", got=got[:5],
                want=want[:5])
        m.bonds = got
    want = m.bonds
    for k in range(n):
        require(got[k][:3] == want[k][:3] and abs(got[k][3] - want[k][3]) <= 1e-6 * max(1, want[k][3])
                and got[k][4] == want[k][4], f"{name}: bond {k}", got=got[k], want=want[k])
        require(tuple(int(x) for x in idx[k]) == want[k][:2], f"{name}: [:] of bond {k}", got=idx[k])
    if n:
        require(tuple(int(x) for x in nl[n - 1]) == want[n - 1][:2], f"{name}: index access")
    require(nl.num_query_points == m.nq and nl.num_points == m.np, f"{name}: numbers of points",
            got=[nl.num_query_points, nl.num_points], want=[m.nq, m.np])
    II = np.array([x[0] for x in want], dtype=int)
    counts = np.bincount(II, minlength=m.nq)
    equal(name + ": neighbor_counts", nl.neighbor_counts, counts)
    seg = np.searchsorted(II, np.arange(m.nq), side="left")
    S = same_shape(name + ": segments", nl.segments, (m.nq,))
    equal(name + ": segments", np.asarray(S)[counts > 0], seg[counts > 0])
    for q in range(m.nq):
        f = nl.find_first_index(q)
        require(f == seg[q], f"{name}: find_first_index({q})", got=f, want=int(seg[q]), indices=II)


def history(d):
    nq, npt = d.int(1, 8), d.int(1, 8)
    nl, m = build(d, nq, npt)
    hist = []
    d.note(nq=nq, np=npt, bonds=[list(x) for x in m.bonds], history=hist)
    compare("from_arrays", nl, m)
    changed = 0
    others = []
    for _ in range(d.int(1, 8)):
        op = d.choice(("filter", "filter_r", "sort", "sort_d", "copy", "copy_into", "keep", "filter_all", "read"))
        n = len(m.bonds)
        if op in ("filter", "filter_all"):
            mask = [d.bool() for _ in range(n)] if op == "filter" else [bool(d.draw(1))] * n
            form = d.draw(3)
            arg = [np.array(mask, dtype=bool), list(mask), np.array(mask, dtype=np.int64),
                   np.repeat(np.array(mask, dtype=bool), 2)[::2]][form]
            r = nl.filter(arg)
            require(r is nl, "filter does not return the list")
            if not all(mask):
                changed += 1
            m.bonds = [x for x, k in zip(m.bonds, mask) if k]
            hist.append([op, mask])
        elif op == "filter_r":
            lo = 0.0 if d.bool() else d.choice((1.0, 0.5, 2.0))
            hi = lo + d.choice((1.0, 2.0, 0.25, 3.7))
            dist = [float(x) for x in nl.distances]
            r = nl.filter_r(hi) if lo == 0.0 and d.bool() else nl.filter_r(hi, lo)
            require(r is nl, "filter_r does not return the list")
            keep = [np.float32(lo) <= np.float32(x) < np.float32(hi) for x in dist]
            if not all(keep):
                changed += 1
            m.bonds = [x for x, k in zip(m.bonds, keep) if k]
            hist.append([op, hi, lo])
        elif op == "sort":
            r = nl.sort() if d.bool() else nl.sort(by_distance=False)
            require(r is nl, "sort does not return the list")
            changed += 1
            hist.append([op])
            compare(op, nl, m, tie=lambda x: (x[0], x[1]))
        elif op == "sort_d":
            r = nl.sort(by_distance=True)
            changed += 1
            hist.append([op])
            compare(op, nl, m, tie=lambda x: (x[0], np.float32(x[3]), x[1]))
        elif op == "copy":
            others.append((nl, m.copy()))
            nl = nl.copy()
            hist.append([op])
        elif op == "copy_into":
            tgt, _ = build(d, d.int(1, 4), d.int(1, 4))
            if d.bool():
                _ = tgt.segments
            r = tgt.copy(nl)
            require(r is tgt, "copy(other) does not return the list")
            others.append((nl, m.copy()))
            nl = tgt
            hist.append([op])
        elif op == "keep":
            others.append((nl.copy(), m.copy()))
            hist.append([op])
        else:
            _ = nl.segments, nl.neighbor_counts
            hist.append([op])
        compare(op, nl, m)
    d.nontrivial(len(hist) >= 2 and changed >= 2)
    for other, mo in others:
        compare("copy after changes elsewhere", other, mo)


def arrays_kept(d):
    """Arrays read before an operation keep their values; the source arrays are not aliased."""
    nq, npt = d.int(1, 6), d.int(1, 6)
    I, J, V, W = draw_bonds(d, nq, npt)
    n = len(I)
    if n == 0:
        return
    I = np.array(I, dtype=np.uint32)
    J = np.array(J, dtype=np.uint32)
    W = np.ones(n, dtype=np.float32) if W is None else W
    nl = nlclass().from_arrays(nq, npt, I, J, V, W)
    d.note(I=I, J=J, V=V, W=W)
    d.nontrivial(n > 2)
    I0, J0, V0, W0 = I.copy(), J.copy(), V.copy(), W.copy()
    held = (nl.query_point_indices, nl.point_indices, nl.vectors, nl.weights, nl.distances)
    snap = [np.array(x) for x in held]
    I[:] = 0
    J[:] = 0
    V[:] = 9
    W[:] = 9
    equal("vectors after changing the source", nl.vectors, V0)
    equal("weights after changing the source", nl.weights, W0)
    equal("indices after changing the source", nl[:], np.stack([I0, J0], axis=1))
    c = nl.copy()
    mask = np.array([d.bool() for _ in range(n)])
    nl.filter(mask)
    for x, y in zip(held, snap):
        equal("an array obtained before filtering", x, y)
    equal("a copy after filtering the original", c.distances, snap[4])
    for k in ("query_point_indices", "point_indices"):
        x = getattr(nl, k)
        if len(x):
            require(not x.flags.writeable or raises(lambda: x.__setitem__(0, 0)) or True, k)


def all_pairs(d):
    s = gen.system(d, nmax=14)
    ex = d.bool()
    kw = {} if ex and d.bool() else {"exclude_ii": ex}
    sysm = s.b.fb, s.P
    import freud

    how = d.draw(2)
    if how == 1:
        sysm = freud.locality.AABBQuery(s.b.fb, s.P)
    elif how == 2:
        sysm = freud.locality.LinkCell(s.b.fb, s.P)
    nl = nlclass().all_pairs(sysm, None if s.same else s.Q, **kw)
    d.note(exclude_ii=ex)
    I, J, V, D = ref.pairs(s.b, s.P, s.Q)
    if ex:
        k = I != J
        I, J, V, D = I[k], J[k], V[k], D[k]
    d.nontrivial(len(I) > 2)
    require(len(nl) == len(I), "all_pairs: number of bonds", got=len(nl), want=len(I))
    equal("all_pairs: indices", nl[:], np.stack([I, J], axis=1))
    equal("all_pairs: weights", nl.weights, np.ones(len(I)))
    t = ref.tol(s.b)
    d0 = s.P[J].astype(float) - s.Q[I]
    G = np.asarray(nl.vectors).astype(float)
    kk = np.round(ref.frac(s.b, G - d0))
    kk[:, s.b.dims:] = 0
    close("all_pairs: vectors point from query point to point", G, d0 + kk @ s.b.M.T, rtol=0, atol=t)
    f = np.abs(ref.frac(s.b, V)[:, :s.b.dims])
    inner = np.all(np.abs(f - 0.5) > 1e-4, axis=1)
    close("all_pairs: vectors", G[inner], V[inner], rtol=0, atol=t)
    fg = np.abs(ref.frac(s.b, G)[:, :s.b.dims])
    require(np.all(fg < 0.5 + 1e-4), "all_pairs: vectors are not wrapped", got=fg.max() if len(fg) else 0)
    close("all_pairs: distances", nl.distances, np.sqrt((G ** 2).sum(axis=1)), rtol=2e-6, atol=1e-6 * t)
    equal("all_pairs: counts", nl.neighbor_counts, np.bincount(I, minlength=len(s.Q)))
    require(nl.num_query_points == len(s.Q) and nl.num_points == len(s.P), "all_pairs: numbers of points")
    # all pairs contains every ball query
    a = gen.ball_args(d, s.b, allow_rmin=False, exclude=ex)
    q = freud.locality.AABBQuery(s.b.fb, s.P).query(s.Q, a).toNeighborList()
    A = {(int(i), int(j)) for i, j in nl[:]}
    require({(int(i), int(j)) for i, j in q[:]} <= A, "a ball query has a bond that all_pairs lacks")


def rejects(d):
    NL = nlclass()
    nq, npt = d.int(1, 6), d.int(1, 6)
    I, J, V, W = draw_bonds(d, nq, npt)
    n = len(I)
    I, J = np.array(I, dtype=np.int64), np.array(J, dtype=np.int64)
    kind = d.choice(("unsorted", "qrange", "prange", "lenJ", "lenV", "lenW", "vshape", "filterlen", "rmax", "rmin",
                     "rorder", "empty_ok"))
    d.note(kind=kind, I=I, J=J, nq=nq, np=npt)
    d.label(kind)
    d.nontrivial(n > 1)
    if kind == "unsorted":
        if n < 2 or I[0] == I[-1]:
            return
        k = I[::-1].copy()
        require(raises(lambda: NL.from_arrays(nq, npt, k, J, V, W)), "unsorted query point indices accepted")
        # one single inversion anywhere
        x = int(d.draw(n - 2))
        k = I.copy()
        k[x], k[x + 1] = k[x + 1], k[x]
        if np.any(np.diff(k) < 0):
            require(raises(lambda: NL.from_arrays(nq, npt, k, J, V, W)), "unsorted query point indices accepted")
    elif kind == "qrange":
        if n:
            k = I.copy()
            k[-1] = nq + d.draw(2)
            require(raises(lambda: NL.from_arrays(nq, npt, k, J, V, W)), "query index out of range accepted")
    elif kind == "prange":
        if n:
            k = J.copy()
            k[d.draw(n - 1)] = npt + d.draw(2)
            require(raises(lambda: NL.from_arrays(nq, npt, I, k, V, W)), "point index out of range accepted")
    elif kind == "lenJ":
        require(raises(lambda: NL.from_arrays(nq, npt, I, np.append(J, 0), V, W)), "longer point indices accepted")
    elif kind == "lenV":
        require(raises(lambda: NL.from_arrays(nq, npt, I, J, np.zeros((n + 1, 3)), W)), "longer vectors accepted")
    elif kind == "lenW":
        require(raises(lambda: NL.from_arrays(nq, npt, I, J, V, np.ones(n + 1))), "longer weights accepted")
    elif kind == "vshape":
        require(raises(lambda: NL.from_arrays(nq, npt, I, J, np.zeros((n, 2)), W)), "vectors of a wrong shape accepted")
    else:
        nl = NL.from_arrays(nq, npt, I, J, V, W)
        before = [np.array(x) for x in (nl[:], nl.vectors, nl.weights)]
        if kind == "filterlen":
            for m in (n + 1, n - 1, n + 64):
                if m >= 0:
                    require(raises(lambda: nl.filter(np.ones(m, dtype=bool))), "filter of a wrong length accepted",
                            n=n, m=m)
        elif kind == "rmax":
            require(raises(lambda: nl.filter_r(0)) and raises(lambda: nl.filter_r(-1.0)), "r_max <= 0 accepted")
        elif kind == "rmin":
            require(raises(lambda: nl.filter_r(1.0, -0.5)), "negative r_min accepted")
        elif kind == "rorder":
            require(raises(lambda: nl.filter_r(1.0, 2.0)) and raises(lambda: nl.filter_r(1.0, 1.0)),
                    "r_max <= r_min accepted")
        else:
            e = NL.from_arrays(nq, npt, [], [], np.zeros((0, 3)))
            compare("empty list", e, Model(nq, npt, []))
            compare("empty filtered list", e.filter([]).filter_r(1.0).sort(), Model(nq, npt, []))
            if n:
                x = NL.from_arrays(nq, npt, I, J, V, W)
                x.filter(np.zeros(n, dtype=bool))
                compare("list with every bond filtered", x, Model(nq, npt, []))
        for x, y in zip((nl[:], nl.vectors, nl.weights), before):
            equal("list after a rejected operation", x, y)


SUBS = [Sub(history, 6000), Sub(arrays_kept, 1500), Sub(all_pairs, 2500), Sub(rejects, 2500)]
