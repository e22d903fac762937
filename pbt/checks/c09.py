"""C09: SANN and RAD neighbor filters against their published rules."""

import numpy as np

from .. import gen, ref
from ..engine import Sub, equal, require
from . import common

PROP = "C09"
RULE = ("Systems of 1 to 40 points, unfiltered lists from all pairs (default), ball and nearest queries and arbitrary "
        "explicit lists with weights, radii between 0.3 and 3, both RAD modes, complete and incomplete shells. Oracle: "
        "the published criteria evaluated in float64 per query point with three-valued comparisons, so that only "
        "decisions within rounding of equality are left open. Non-trivial: for some query point the rule removes at "
        "least one neighbor and keeps at least two.")


def unfiltered(d, s):
    """(neighbors argument, expected bonds or None) for the system."""
    import freud

    how = d.weighted((3, "none"), (2, "ball"), (2, "nearest"), (2, "list"))
    d.label("nl:" + how)
    if how == "none":
        return how, None
    if how == "ball":
        return how, {"r_max": gen.rmax(d, s.b, lo=0.5), "mode": "ball", "exclude_ii": s.same}
    if how == "nearest":
        return how, {"num_neighbors": d.int(1, 20), "mode": "nearest", "exclude_ii": s.same,
                     "r_max": gen.rmax(d, s.b, lo=0.5)}
    if d.bool(3):
        # bonds to any image of the points
        d.label("images")
        g = d.rng()
        pairs = [(i, j) for i in range(len(s.Q)) for j in range(len(s.P))]
        pairs = [p for p in pairs if g.random() < 0.7] or pairs[:1]
        I, J = np.array(pairs).T
        T = g.integers(-1, 2, (len(I), 3))
        T[:, s.b.dims:] = 0
        V = (s.P[J].astype(float) - s.Q[I] + T @ s.b.M.T).astype(np.float32)
        W = g.uniform(0.2, 2, len(I)).astype(np.float32)
        return how, freud.locality.NeighborList.from_arrays(len(s.Q), len(s.P), I, J, V, W)
    nl, _ = gen.nlist(d, s)
    return how, nl


def bonds_of(nl):
    I, J, D, V, W = common.nl_arrays(nl)
    return I, J, D, V, W


def check_common(name, un, fi, nq, npt):
    """The filtered list is a distance-sorted subset with unchanged data; returns the kept keys."""
    I, J, D, V, W = un
    Fi, Fj, Fd, Fv, Fw = bonds_of(fi)
    require(fi.num_query_points == nq and fi.num_points == npt, f"{name}: numbers of points of the filtered list",
            got=[fi.num_query_points, fi.num_points], want=[nq, npt])
    src = {(int(i), int(j)): k for k, (i, j) in enumerate(zip(I, J))}
    for k in range(len(Fi)):
        o = src.get((int(Fi[k]), int(Fj[k])))
        require(o is not None, f"{name}: a bond that the unfiltered list lacks", bond=[Fi[k], Fj[k]])
        require(D[o] == Fd[k] and np.array_equal(V[o], Fv[k]) and W[o] == Fw[k], f"{name}: bond data changed",
                bond=[Fi[k], Fj[k]], got=[Fd[k], Fv[k], Fw[k]], want=[D[o], V[o], W[o]])
    require(len(set(zip(Fi.tolist(), Fj.tolist()))) == len(Fi), f"{name}: bond kept twice")
    dk = np.diff(Fi)
    require(np.all((dk > 0) | ((dk == 0) & (np.diff(Fd) >= 0))), f"{name}: not sorted by distance")
    counts = np.bincount(Fi, minlength=nq)
    equal(f"{name}: neighbor counts", fi.neighbor_counts, counts)
    return set(zip(Fi.tolist(), Fj.tolist()))


def run(d, s, filt, decide, how, neighbors, kw, always_complete=False):
    b = s.b
    args = (b.fb, s.P)
    qp = None if s.same and d.bool() else s.Q
    if how == "none" and s.same and qp is not None:
        qp = None
    before = None
    if how == "list":
        before = bonds_of(neighbors)
    try:
        if neighbors is None:
            filt.compute(args, query_points=qp, **kw)
        else:
            filt.compute(args, neighbors, qp, **kw)
        raised = None
    except RuntimeError as e:
        raised = str(e)
    # the expected unfiltered list
    import freud

    if how == "none":
        # separations of exactly half of the box have two images, so that the list is taken from freud (see C07)
        I, J, D, V, W = bonds_of(freud.locality.NeighborList.all_pairs(args, None if s.same else s.Q, s.same))
    else:
        if how == "list":
            nl = neighbors
            after = bonds_of(nl)
            for x, y in zip(after, before):
                equal("the caller's list after filtering", x, y)
        else:
            nl = freud.locality.AABBQuery(b.fb, s.P).query(s.Q, neighbors).toNeighborList()
        I, J, D, V, W = bonds_of(nl)
    if raised is None:
        un = filt.unfiltered_nlist
        u = bonds_of(un)
        require(np.array_equal(u[0], I) and np.array_equal(u[1], J), "unfiltered list differs from the neighbors given",
                got=np.stack(u[:2], 1)[:5], want=np.stack([I, J], 1)[:5], n=[len(u[0]), len(I)])
        if how != "none":
            for x, y in zip(u, (I, J, D, V, W)):
                equal("unfiltered list data", x, y)
        require(un.num_query_points == len(s.Q) and un.num_points == len(s.P), "unfiltered list: numbers of points")
        kept = check_common("filtered", u, filt.filtered_nlist, len(s.Q), len(s.P))
    sure_unfilled, maybe_unfilled = [], []
    interesting = False
    for q in range(len(s.Q)):
        sel = I == q
        unf, cands = decide(q, J[sel], D[sel], V[sel])
        if unf is True:
            sure_unfilled.append(q)
        elif unf is None:
            maybe_unfilled.append(q)
        if raised is None:
            k = {j for i, j in kept if i == q}
            cands(k)
            interesting |= len(k) >= 2 and len(k) < sel.sum()
    d.nontrivial(interesting)
    if raised is None:
        if not filt_allows(filt, always_complete):
            require(not sure_unfilled, "an incomplete shell was accepted silently", queries=sure_unfilled)
    else:
        require(not filt_allows(filt, always_complete), "error although incomplete shells are allowed", error=raised)
        require(sure_unfilled or maybe_unfilled, "error although every shell is complete", error=raised)
        d.label("incomplete error")
        d.nontrivial(len(I) > 3)




def filt_allows(filt, always):
    return always or filt._pbt_allow


def sann(d):
    import freud

    s = gen.system(d, nmin=1, nmax=40, wide=False)
    how, nb = unfiltered(d, s)
    allow = d.bool()
    f = freud.locality.FilterSANN(allow) if d.bool() else freud.locality.FilterSANN(allow_incomplete_shell=allow)
    f._pbt_allow = allow
    d.note(how=how, neighbors=None if how in ("none", "list") else nb, allow=allow)
    t = 4 * ref.tol(s.b)

    def decide(q, J, D, LV):
        order = np.argsort(D, kind="stable")
        J, D = J[order], D[order]
        n = len(D)
        cand, m, state = set(), 0, False
        tot = float(D[:3].sum())
        if n <= 3:
            cand, state = {n}, True
            m = n
        else:
            m = 3
            while True:
                if m == n:
                    cand.add(m)
                    state = True if len(cand) == 1 else None
                    break
                x = tot / (m - 2) - D[m]
                e = (m + 1) * t / (m - 2) + t
                if x > e:
                    pass
                elif x < -e:
                    cand.add(m)
                    break
                else:
                    cand.add(m)
                tot += D[m]
                m += 1

        def check(k):
            require(len(k) in cand, "SANN keeps a wrong number of neighbors", query=q, got=len(k), want=sorted(cand),
                    distances=D)
            far = max([D[list(J).index(j)] for j in k], default=-1)
            left = min([x for j, x in zip(J, D) if j not in k], default=np.inf)
            require(far <= left + t, "SANN leaves out a nearer neighbor", query=q, kept=sorted(k), distances=D)

        return state, check

    run(d, s, f, decide, how, nb, {})


def rad(d):
    import freud

    s = gen.system(d, nmin=1, nmax=40, wide=False)
    how, nb = unfiltered(d, s)
    allow, closed = d.bool(), d.bool()
    if closed and not allow and d.bool():
        f = freud.locality.FilterRAD()
    elif d.bool():
        f = freud.locality.FilterRAD(allow, closed)
    else:
        f = freud.locality.FilterRAD(allow_incomplete_shell=allow, terminate_after_blocked=closed)
    f._pbt_allow = allow
    b = s.b
    kw = {}
    R = np.ones(len(s.P))
    if d.bool():
        g = d.rng()
        R = g.uniform(0.3, 3.0, len(s.P)) if d.bool() else g.choice([0.5, 1.0, 2.0], len(s.P))
        R = R.astype(np.float32).astype(float)
        kw["points_radii"] = R.astype(np.float32)
    if d.bool(3):
        # the radius of the central particle has no influence on the published criterion
        kw["query_points_radii"] = d.rng().uniform(0.3, 3.0, len(s.Q)).astype(np.float32)
    d.label("closed" if closed else "open", "radii" if "points_radii" in kw else "unit")
    d.note(how=how, neighbors=None if how in ("none", "list") else nb, allow=allow, closed=closed, **kw)
    t = 4 * ref.tol(b)
    Ir, Jr, Vr, Dr = ref.pairs(b, s.P, s.Q)
    n = len(s.P)
    f2 = np.abs(np.abs(ref.frac(b, Vr)[:, :b.dims]) - 0.5).min(axis=1) < 1e-5
    risky = f2.any()

    def decide(q, J, D, LV):
        if how == "list":
            V = LV
            L = np.sqrt((V ** 2).sum(axis=1))
            flip = np.zeros(len(J), dtype=bool)
        else:
            V = Vr[q * n + J]
            L = Dr[q * n + J]
            flip = f2[q * n + J]  # separation exactly half of the box: the image is not determined
        m = len(J)
        dot = V @ V.T
        # blocks[j, k]: k blocks j
        lhs = (R[J] ** 2)[:, None] * (L ** 2)[None, :] * D[:, None] * D[None, :]
        rhs = (R[J] ** 2)[None, :] * dot * (L ** 2)[:, None]
        # relative error of float32 evaluation plus the rounding of the separation vectors
        mag = np.abs(lhs) + (R[J] ** 2)[None, :] * (D[:, None] * D[None, :]) * (L ** 2)[:, None]
        rel = np.full((m, m), 1e-5) + 8 * t * (1 / np.maximum(D, 1e-30)[:, None] + 1 / np.maximum(D, 1e-30)[None, :])
        e = mag * rel
        sure = lhs < rhs - e
        maybe = lhs <= rhs + e
        maybe |= flip[:, None] | flip[None, :]
        sure &= ~(flip[:, None] | flip[None, :])
        closer = D[None, :] < D[:, None] - t
        mayc = D[None, :] <= D[:, None] + t
        np.fill_diagonal(mayc, False)
        bs = (sure & closer).any(axis=1)
        bm = (maybe & mayc).any(axis=1)
        if closed:
            first_s = D[bs].min() if bs.any() else np.inf
            first_m = D[bm].min() if bm.any() else np.inf
            must = D < first_m - t
            may = ~bs & (D <= first_s + t)
            state = True if not bm.any() else (False if bs.any() else None)
        else:
            must, may = ~bm, ~bs
            state = False

        def check(k):
            for x in range(m):
                if must[x]:
                    require(int(J[x]) in k, "RAD removes a neighbor that nothing closer blocks", query=q, point=J[x],
                            kept=sorted(k), order=J[np.argsort(D)], closed=closed)
                if not may[x]:
                    require(int(J[x]) not in k, "RAD keeps a blocked neighbor", query=q, point=J[x], kept=sorted(k),
                            order=J[np.argsort(D)], closed=closed)

        return state, check

    if risky:
        d.label("half-box separations")
    run(d, s, f, decide, how, nb, kw, always_complete=not closed)


def radii_scale(d):
    """RAD results depend on the ratio of radii only; unit radii are the default."""
    import freud

    s = gen.system(d, nmin=3, nmax=30, wide=False, query=False, style="uniform")
    closed = d.bool()
    c = d.choice((0.25, 2.0, 4.0))
    R = d.rng().uniform(0.5, 2, len(s.P)).astype(np.float32)
    d.note(closed=closed, c=c, R=R)

    def go(r):
        f = freud.locality.FilterRAD(True, closed)
        f.compute((s.b.fb, s.P), **({} if r is None else {"points_radii": r}))
        return np.asarray(f.filtered_nlist[:])

    a = go(None)
    equal("unit radii against the default", go(np.ones(len(s.P))), a)
    equal("equal radii against the default", go(np.full(len(s.P), c, dtype=np.float32)), a)
    x, y = go(R), go(R * np.float32(c))
    d.nontrivial(len(a) > 3)
    equal("scaling all radii", y, x)




SUBS = [Sub(sann, 4000), Sub(rad, 6000), Sub(radii_scale, 1000)]
