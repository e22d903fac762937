"""C28: the interface between two sets of points."""

import numpy as np

from .. import gen
from ..engine import Sub, equal, raises, require
from . import common

PROP = "C28"
RULE = ("Pairs of random point sets (coincident points, one set far from the other, one set equal to the other) and "
        "neighbors given as query arguments or lists, repeated computations of one object. Oracle: the set of "
        "indices with at least one bond, from the pairwise reference for query arguments and from the bonds of a "
        "list. Non-trivial: some but not all points are at the interface.")


def check(o, B, s):
    ids, qids = np.unique(B.J), np.unique(B.I)
    p, q = np.asarray(o.point_ids), np.asarray(o.query_point_ids)
    equal("point_ids", p, ids)
    equal("query_point_ids", q, qids)
    equal("point_count", o.point_count, len(ids))
    equal("query_point_count", o.query_point_count, len(qids))
    require(p.dtype.kind in "iu" and q.dtype.kind in "iu", "ids are no integers", got=(p.dtype, q.dtype))
    return 0 < len(ids) < len(s.P) or 0 < len(qids) < len(s.Q)


def setup(d):
    s = gen.system(d, nmax=60, query=None)
    Q = s.P if s.same else s.Q
    B = common.bonds(d, s)
    # Interface has no default query points
    if B.qp is None and B.how in ("ball", "nearest"):
        # the points themselves as query points
        import freud

        args = dict(B.neighbors)
        nq = freud.locality.NeighborQuery.from_system(B.sys)
        full = dict(args)
        full.setdefault("exclude_ii", False)
        nl = nq.query(s.P, full).toNeighborList()
        I, J, D, V, W = common.nl_arrays(nl)
        B = common.Bonds(s, s.P, args, (I, J, V, D, W), B.how, B.sys)
    return s, Q, B


def definition(d):
    import freud

    s, Q, B = setup(d)
    o = freud.interface.Interface()
    if d.bool(3):
        s2, Q2, B2 = setup(d)
        o.compute(B2.sys, Q2, neighbors=B2.neighbors)
        check(o, B2, s2)
    keep = Q.copy()
    o.compute(B.sys, Q, neighbors=B.neighbors)
    require(np.array_equal(keep, Q), "query points modified")
    d.nontrivial(check(o, B, s))


def ball(d):
    """Against the reference distances only."""
    import freud
    from .. import ref

    s = gen.system(d, nmax=60, query=True)
    r = gen.rmax(d, s.b)
    o = freud.interface.Interface().compute(common.sysarg(d, s), s.Q, neighbors={"r_max": r})
    I, J, V, D = ref.pairs(s.b, s.P, s.Q)
    t = ref.tol(s.b)
    for name, got, idx in (("point_ids", o.point_ids, J), ("query_point_ids", o.query_point_ids, I)):
        got = set(np.asarray(got).tolist())
        must, may = set(idx[D < r - t].tolist()), set(idx[D < r + t].tolist())
        require(must <= got, f"{name}: missing", missing=sorted(must - got))
        require(got <= may, f"{name}: not at the interface", extra=sorted(got - may))
        require(len(got) == len(np.asarray(o.point_ids if name == "point_ids" else o.query_point_ids)),
                f"{name}: repeated")
    # exchange of the sets
    o2 = freud.interface.Interface().compute((s.b.fb, s.Q), s.P, neighbors={"r_max": r})
    if not np.any(np.abs(D - r) < t):
        equal("exchanged sets", o2.point_ids, o.query_point_ids)
        equal("exchanged sets", o2.query_point_ids, o.point_ids)
    d.nontrivial(0 < o.point_count < len(s.P))


def empty(d):
    import freud

    o = freud.interface.Interface()
    for a in ("point_ids", "query_point_ids", "point_count", "query_point_count"):
        require(raises(lambda: getattr(o, a), AttributeError), f"{a} readable before compute")
    s, Q, B = setup(d)
    o.compute(B.sys, Q, neighbors=B.neighbors)
    nl = freud.locality.NeighborList.from_arrays(len(Q), len(s.P), np.zeros(0, dtype=int), np.zeros(0, dtype=int),
                                                 np.zeros((0, 3), dtype=np.float32))
    o.compute(B.sys, Q, neighbors=nl)
    equal("empty interface", [o.point_count, o.query_point_count, len(o.point_ids), len(o.query_point_ids)],
          [0, 0, 0, 0])
    # sets out of reach of each other
    b = gen.BoxSpec(20, 20, 20)
    P = (np.array([[d.float(-1, 1) for _ in range(3)] for _ in range(d.int(1, 5))]) + [-5, 0, 0]).astype(np.float32)
    R = (np.array([[d.float(-1, 1) for _ in range(3)] for _ in range(d.int(1, 5))]) + [5, 0, 0]).astype(np.float32)
    o.compute((b.fb, P), R, neighbors={"r_max": 4.0})
    equal("empty interface", [o.point_count, o.query_point_count, len(o.point_ids), len(o.query_point_ids)],
          [0, 0, 0, 0])
    d.nontrivial()


SUBS = [Sub(definition, 800), Sub(ball, 400), Sub(empty, 60)]
