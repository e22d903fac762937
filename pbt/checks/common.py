"""Helpers shared by the neighbor-finding checks."""

import numpy as np

from .. import gen, ref
from ..engine import fail, require


def cell_widths(d, b, max_cells=20000):
    """0 (default) or a cell width below half of the nearest plane distance."""
    if d.bool(3):
        return 0.0
    w = d.float(0.12, 0.98) * b.rhalf
    w = max(w, (np.prod(b.plane) / max_cells) ** (1 / b.dims))
    return float(np.float32(min(w, 0.98 * b.rhalf)))


def searchers(d, b, P, kinds=("aabb", "link", "cell", "raw"), max_cells=20000):
    """[(name, system object)] for each kind of search structure."""
    import freud

    out = []
    for k in kinds:
        if k == "aabb":
            out.append((k, freud.locality.AABBQuery(b.fb, P)))
        elif k == "link":
            w = cell_widths(d, b, max_cells)
            out.append((f"link({w:.6g})", freud.locality.LinkCell(b.fb, P, w)))
        elif k == "cell":
            out.append((k, freud.locality.CellQuery(b.fb, P)))
        else:
            out.append((k, freud.locality.NeighborQuery.from_system((b.fb, P))))
    return out


def nl_arrays(nl):
    return (np.asarray(nl.query_point_indices).astype(int), np.asarray(nl.point_indices).astype(int),
            np.asarray(nl.distances).astype(float), np.asarray(nl.vectors).astype(float),
            np.asarray(nl.weights).astype(float))


def check_ball(name, I, J, D, b, P, Q, r_max, r_min=0.0, exclude_ii=False, tol=None, refp=None):
    """The bonds (I, J, D) are exactly the pairs in range, up to rounding at the cutoffs."""
    t = ref.tol(b) if tol is None else tol
    Ir, Jr, Vr, Dr = refp if refp is not None else ref.pairs(b, P, Q)
    n = len(P)
    require(len(I) == len(J) == len(D), f"{name}: array lengths")
    require(np.all((I >= 0) & (I < len(Q)) & (J >= 0) & (J < n)), f"{name}: index out of range")
    key = I * n + J
    u, c = np.unique(key, return_counts=True)
    if np.any(c > 1):
        k = int(u[np.argmax(c > 1)])
        fail(f"{name}: pair reported more than once", query=k // n, point=k % n)
    elig = np.ones(len(Ir), dtype=bool)
    if exclude_ii:
        elig &= Ir != Jr
    must = elig & (Dr < r_max - t) & (Dr >= r_min + t)
    if r_min <= 0:
        must = elig & (Dr < r_max - t)
    may = elig & (Dr <= r_max + t) & (Dr >= r_min - t)
    got = np.zeros(len(Ir), dtype=bool)
    got[key] = True
    if np.any(must & ~got):
        k = int(np.argmax(must & ~got))
        fail(f"{name}: pair in range is missing ({int((must & ~got).sum())} of {int(must.sum())})", query=Ir[k],
             point=Jr[k], distance=Dr[k], r_min=r_min, r_max=r_max, points=P, query_points=Q, box=b.desc())
    if np.any(got & ~may):
        k = int(np.argmax(got & ~may))
        fail(f"{name}: pair out of range is reported", query=Ir[k], point=Jr[k], distance=Dr[k], r_min=r_min,
             r_max=r_max, excluded=bool(exclude_ii and Ir[k] == Jr[k]))
    bad = np.abs(D - Dr[key]) > t + 1e-6 * Dr[key]
    if np.any(bad):
        k = int(np.argmax(bad))
        fail(f"{name}: wrong distance", query=I[k], point=J[k], got=D[k], want=Dr[key[k]])
    return int(must.sum())


def check_nearest(name, I, J, D, b, P, Q, k, r_max=np.inf, r_min=0.0, exclude_ii=False, tol=None, refp=None,
                  horizon=np.inf, ordered=True):
    """The bonds are the k nearest eligible points of every query point (those closer than horizon)."""
    t = ref.tol(b) if tol is None else tol
    Ir, Jr, Vr, Dr = refp if refp is not None else ref.pairs(b, P, Q)
    n, m = len(P), len(Q)
    require(len(I) == len(J) == len(D), f"{name}: array lengths")
    require(np.all((I >= 0) & (I < m) & (J >= 0) & (J < n)), f"{name}: index out of range")
    require(np.all(np.diff(I) >= 0), f"{name}: not ordered by query point")
    Dm = Dr.reshape(m, n)
    for q in range(m):
        sel = I == q
        j, dist = J[sel], D[sel]
        info = dict(query=q, got=j, distances=dist, k=k, r_max=r_max, r_min=r_min, exclude_ii=exclude_ii)
        require(len(np.unique(j)) == len(j), f"{name}: point reported more than once", **info)
        require(len(j) <= k, f"{name}: more than k neighbors", **info)
        if ordered:
            require(np.all(np.diff(dist) >= 0), f"{name}: not ordered by distance", **info)
        row = Dm[q]
        near = dist < horizon - t
        bad = np.abs(dist - row[j]) > t + 1e-6 * dist
        require(not np.any(bad & near), f"{name}: wrong distance", want=row[j], **info)
        elig = np.ones(n, dtype=bool)
        if exclude_ii and q < n:
            elig[q] = False
            require(q not in j, f"{name}: excluded point reported", **info)
        must = elig & (row < min(r_max, horizon) - t) & ((row >= r_min + t) if r_min > 0 else True)
        may = elig & (row <= r_max + t) & (row >= r_min - t)
        if np.any(~may[j] & near):
            fail(f"{name}: point out of range reported", want=row[j], **info)
        must_sorted = np.sort(row[must])
        if np.isinf(horizon):
            lo, hi = min(k, int(must.sum())), min(k, int(may.sum()))
            require(lo <= len(j) <= hi, f"{name}: wrong number of neighbors", expected=[lo, hi], row=row, **info)
        else:
            require(len(j) >= min(k, int(must.sum())), f"{name}: too few neighbors", row=row, **info)
        # nothing nearer was left out
        missing = must.copy()
        missing[j] = False
        if missing.any() and len(j):
            worst = dist.max()
            if np.any(row[missing] < worst - t):
                fail(f"{name}: a nearer point was left out", left_out=np.nonzero(missing & (row < worst - t))[0],
                     row=row, **info)
        if missing.any():
            require(len(j) == k, f"{name}: too few neighbors", row=row, **info)
        del must_sorted


class Bonds:
    """Neighbors handed to an analysis and the bonds they stand for (float64 arrays)."""

    def __init__(self, s, qp, neighbors, arrays, how, sys):
        self.s, self.qp, self.neighbors, self.how, self.sys = s, qp, neighbors, how, sys
        self.I, self.J, self.V, self.D, self.W = arrays

    def kw(self):
        k = {}
        if self.qp is not None:
            k["query_points"] = self.qp
        if self.neighbors is not None:
            k["neighbors"] = self.neighbors
        return k

    def __len__(self):
        return len(self.I)


def bonds(d, s, default_rmax=None, weighted=True, kinds=None, default_args=None):
    """Draws the neighbors of the system s: default, query arguments or a list.

    default_rmax enables the default of {'mode': 'ball', 'r_max': default_rmax}.
    """
    import freud

    b = s.b
    qp = None if s.same else s.Q
    sys = sysarg(d, s)
    opts = [(3, "list"), (2, "ball"), (1, "nearest")]
    if default_rmax is not None or default_args is not None:
        opts.insert(0, (2, "default"))
    if kinds:
        opts = [o for o in opts if o[1] in kinds]
    how = d.weighted(*opts)
    d.label("neighbors:" + how)
    if how == "list":
        nl, (I, J, V, D, W) = gen.nlist(d, s, kind=None if weighted else d.choice(("ball", "random", "all")))
        # the caller may pass the points explicitly as query points too
        if s.same and d.bool(4):
            qp = s.P
        V = V.astype(np.float32).astype(float)
        return Bonds(s, qp, nl, (I, J, V, np.sqrt((V ** 2).sum(axis=1)), W), how, sys)
    if how == "default":
        args = dict(default_args) if default_args is not None else {"mode": "ball", "r_max": default_rmax}
        args["exclude_ii"] = qp is None
        neighbors = None
    elif how == "ball":
        args = gen.ball_args(d, b)
        if "exclude_ii" not in args:
            if d.bool():
                args["exclude_ii"] = False
        neighbors = dict(args)
    else:
        args = {"num_neighbors": d.int(1, 12), "mode": "nearest", "r_max": gen.rmax(d, b, lo=0.5)}
        if b.ortho and d.bool():
            args.pop("r_max")
        if d.bool():
            args["exclude_ii"] = d.bool()
        neighbors = dict(args)
    args = dict(args)
    args.setdefault("exclude_ii", qp is None)
    # the same structure, so that ties and distances equal to a cutoff are decided alike
    nq = freud.locality.NeighborQuery.from_system(sys)
    nl = nq.query(s.P if qp is None else qp, args).toNeighborList()
    I, J, D, V, W = nl_arrays(nl)
    return Bonds(s, qp, neighbors, (I, J, V, D, W), how, sys)


def sysarg(d, s):
    """The system as a pair or as a search structure."""
    import freud

    k = d.draw(3)
    if k == 3:
        return freud.locality.LinkCell(s.b.fb, s.P)
    if k == 2:
        return freud.locality.AABBQuery(s.b.fb, s.P)
    return (s.b.fb, s.P)


def rebuild(o):
    """The object that the printed form of o evaluates to."""
    import freud
    import numpy as np

    from ..engine import require

    r = repr(o)
    try:
        p = eval(r, {"freud": freud, "np": np, "numpy": np, "array": np.array})  # noqa: S307
    except Exception as e:  # noqa: BLE001
        require(False, "the printed form does not evaluate", printed=r, error=repr(e))
    require(type(p) is type(o), "the printed form evaluates to another type", printed=r, got=type(p).__name__)
    require(repr(p) == r, "the rebuilt object prints differently", printed=r, rebuilt=repr(p))
    return p


def same_parameters(make, want):
    """An object and the one rebuilt from its printed form have the given parameters."""
    import numpy as np

    from ..engine import require

    o = make()
    for p in (o, rebuild(o)):
        for k, v in want.items():
            g = getattr(p, k)
            if isinstance(v, (str, bool)):
                ok = g == v
            elif np.ndim(v) == 0 and np.ndim(g) == 0:
                ok = abs(float(g) - float(v)) <= 2e-6 * abs(float(v))
            else:
                ok = np.shape(np.ravel(g)) == np.shape(np.ravel(v)) and np.allclose(np.ravel(g), np.ravel(v), rtol=2e-6, atol=0)
            require(ok, f"{type(o).__name__}.{k}", got=g, want=v)


def accumulate(d, compute, wrong=None):
    """Computes the same frame once or several times without resetting; returns the number of frames."""
    if wrong is not None and d.bool(4):
        wrong()
    k = 1 if d.bool() else d.int(2, 4)
    if k > 1:
        d.label("accumulated")
        d.note(frames=k)
    for i in range(k):
        compute(**({"reset": i == 0} if k > 1 or d.bool() else {}))
    return k
