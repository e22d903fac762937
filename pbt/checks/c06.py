"""C06: bonds in query results carry correct data."""

import numpy as np

from .. import gen, ref
from ..engine import Sub, close, equal, require, same_shape
from . import common

PROP = "C06"
RULE = ("Systems, search structures and arguments as for C04/C05; every bond field, the order, counts, segments, "
        "lengths and dtypes of the neighbor list are compared to values derived from the points and indices. "
        "Non-trivial: at least two bonds, one of them across a periodic boundary or with a non-trivial index order.")


def check_list(name, nl, s, by_distance):
    b, P, Q = s.b, s.P, s.Q
    I, J, D, V, W = common.nl_arrays(nl)
    t = ref.tol(b)
    n = len(nl)
    same_shape(name + ": indices", nl[:], (n, 2))
    for k, shape in (("query_point_indices", (n,)), ("point_indices", (n,)), ("distances", (n,)),
                     ("vectors", (n, 3)), ("weights", (n,)), ("segments", (len(Q),)),
                     ("neighbor_counts", (len(Q),))):
        same_shape(f"{name}: {k}", getattr(nl, k), shape)
    require(nl.num_query_points == len(Q), name + ": num_query_points", got=nl.num_query_points, want=len(Q))
    require(nl.num_points == len(P), name + ": num_points", got=nl.num_points, want=len(P))
    require(n == 0 or (I.min() >= 0 and I.max() < len(Q) and J.min() >= 0 and J.max() < len(P)), name + ": index range")
    equal(name + ": weights", W, np.ones(n))
    close(name + ": distances are vector lengths", D, np.sqrt((V ** 2).sum(axis=1)), rtol=2e-6, atol=1e-9 * b.scale)
    # the vector is the separation from query point to point, up to lattice vectors, and as short as the wrapped one
    d0 = P[J].astype(float) - Q[I]
    k = np.round(ref.frac(b, V - d0))
    k[:, b.dims:] = 0
    close(name + ": vectors", V, d0 + k @ b.M.T, rtol=0, atol=t)
    R = ref.wrap(b, d0)
    Rd = np.sqrt((R ** 2).sum(axis=1))
    near = Rd < b.rhalf - 2 * t
    close(name + ": vectors are the wrapped separations", V[near], R[near], rtol=0, atol=t)
    if b.ortho:
        close(name + ": distances are the wrapped distances", D, Rd, rtol=2e-6, atol=t)
    if b.is2D:
        require(np.all(V[:, 2] == 0), name + ": vectors with z in 2D")
    # order
    for x in range(1, n):
        if I[x] != I[x - 1]:
            require(I[x] > I[x - 1], name + ": query points are not in order", at=x)
        elif by_distance:
            require(D[x] > D[x - 1] or (D[x] == D[x - 1] and J[x] > J[x - 1]), name + ": not ordered by distance",
                    at=x, distances=D[x - 1:x + 1], points=J[x - 1:x + 1])
        else:
            require(J[x] > J[x - 1], name + ": points are not in order", at=x, points=J[x - 1:x + 1])
    counts = np.bincount(I, minlength=len(Q))
    equal(name + ": neighbor_counts", nl.neighbor_counts, counts)
    seg = np.searchsorted(I, np.arange(len(Q)), side="left")
    has = counts > 0
    equal(name + ": segments", np.asarray(nl.segments)[has], seg[has])
    for q in range(len(Q)):
        require(nl.find_first_index(q) == seg[q], name + ": find_first_index", i=q, got=nl.find_first_index(q),
                want=seg[q])
    equal(name + ": indexing", nl[:], np.stack([I, J], axis=1).astype(np.asarray(nl[:]).dtype))
    return I, J, D, V


def draw(d, nmax=30):
    s = gen.system(d, nmax=nmax)
    if d.bool(3):
        a = gen.nearest_args(d, s.b, len(s.P))
        kinds = ("aabb", "link", "raw")
    else:
        a = gen.ball_args(d, s.b)
        kinds = ("aabb", "link", "cell", "raw")
    return s, a, d.choice(kinds)


def bonds(d):
    s, a, kind = draw(d)
    (name, nq), = common.searchers(d, s.b, s.P, (kind,), max_cells=500)
    d.note(args=a, structure=name)
    d.label(kind, a["mode"])
    byd = d.bool()
    res = nq.query(s.Q, a)
    nl = res.toNeighborList(sort_by_distance=byd) if byd or d.bool() else res.toNeighborList()
    I, J, D, V = check_list(name, nl, s, byd)
    cross = np.abs(V - (s.P[J].astype(float) - s.Q[I])).max() > ref.tol(s.b) if len(I) else False
    d.nontrivial(len(I) >= 2 and (cross or np.any(np.diff(J) < 0)))
    # iteration
    it = list(res)
    require(all(len(x) == 3 for x in it), "iteration does not yield triples")
    key = sorted((int(i), int(j), float(x)) for i, j, x in it)
    want = sorted((int(i), int(j), float(x)) for i, j, x in zip(I, J, D))
    require(key == want, "iterating the result and the neighbor list differ", got=key[:6], want=want[:6],
            n=[len(key), len(want)])
    require([x[0] for x in it] == sorted(x[0] for x in it), "iteration is not in order of query points")
    # the other order has the same bonds
    other = res.toNeighborList(sort_by_distance=not byd)
    check_list(name, other, s, not byd)
    # the points the structure reports
    equal("points of the structure", nq.points, s.P)
    require(nq.box == s.b.fb, "box of the structure")


def symmetric(d):
    s = gen.system(d, query=False, nmax=30)
    a = gen.ball_args(d, s.b)
    kind = d.choice(("aabb", "link", "cell", "raw"))
    (name, nq), = common.searchers(d, s.b, s.P, (kind,))
    d.note(args=a, structure=name)
    nl = nq.query(s.P, a).toNeighborList()
    I, J, D, V, W = common.nl_arrays(nl)
    d.nontrivial(np.any(I != J))
    t = ref.tol(s.b)
    pos = {(int(i), int(j)): k for k, (i, j) in enumerate(zip(I, J))}
    r_max, r_min = a["r_max"], a.get("r_min", 0.0)
    for (i, j), k in pos.items():
        if abs(D[k] - r_max) <= 2 * t or abs(D[k] - r_min) <= 2 * t:
            continue
        require((j, i) in pos, "bond without its reverse", i=i, j=j, distance=D[k])
        m = pos[j, i]
        close("reverse bond distance", D[m], D[k], rtol=1e-6, atol=t)
        close("reverse bond vector", V[m], -V[k], rtol=0, atol=t)


def bulk(d):
    """Many bonds: the parallel conversion to neighbor lists."""
    b = gen.box(d, wide=False, kinds=("cubic", "ortho", "mild"))
    P = gen.points(d, b, d.int(80, 300))
    Q = P if d.bool() else gen.points(d, b, d.int(1, 200))
    s = gen.System(b, P, Q, Q is P)
    a = gen.ball_args(d, b) if d.bool() else gen.nearest_args(d, b, 30)
    d.note(box=b.desc(), n=len(P), m=len(Q), args=a)
    (name, nq), = common.searchers(d, b, P, (d.choice(("aabb", "link")),), max_cells=500)
    byd = d.bool()
    nl = nq.query(Q, a).toNeighborList(sort_by_distance=byd)
    I, J, D, V, W = common.nl_arrays(nl)
    d.nontrivial(len(I) > 100)
    equal("neighbor_counts", nl.neighbor_counts, np.bincount(I, minlength=len(Q)))
    key = np.lexsort((J, D, I)) if byd else np.lexsort((J, I))
    equal("order", key, np.arange(len(I)))
    t = ref.tol(b)
    d0 = P[J].astype(float) - Q[I]
    k = np.round(ref.frac(b, V - d0))
    k[:, b.dims:] = 0
    close("vectors", V, d0 + k @ b.M.T, rtol=0, atol=t)
    close("distances", D, np.sqrt((V ** 2).sum(axis=1)), rtol=2e-6, atol=1e-9)
    require(nl.num_query_points == len(Q) and nl.num_points == len(P), "numbers of points")


SUBS = [Sub(bonds, 5000), Sub(symmetric, 3000), Sub(bulk, 400)]
