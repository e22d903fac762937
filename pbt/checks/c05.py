"""C05: nearest-neighbor queries."""

import numpy as np

from .. import gen, ref
from ..engine import Sub, require
from . import common

PROP = "C05"
RULE = ("Systems as for C04; k from 1 to more than the number of points, r_max absent, below or (orthorhombic boxes) "
        "above half of the box, r_min, exclude_ii, r_guess from 1e-3 to 10 box lengths, scale from 1.01 to 10. "
        "Oracle: sorted float64 all-pairs distances; in tilted boxes beyond half of the nearest plane distance, where "
        "the wrapped separation is not the shortest one, only the nearer neighbors are compared. Non-trivial: some "
        "query point has more eligible points than are returned.")


def draw_args(d, s):
    b = s.b
    k = d.weighted((4, 1 + d.draw(5)), (2, 1 + d.draw(max(1, len(s.P)))), (1, len(s.P) + d.draw(3)))
    a = {"num_neighbors": int(k), "mode": "nearest"}
    if d.bool(6):
        a.pop("mode")
    how = d.weighted((4, "none"), (2, "half"), (1, "more"))
    if how == "half":
        a["r_max"] = gen.rmax(d, b)
        a["mode"] = "nearest"
    elif how == "more" and b.ortho:
        a["r_max"] = float(np.float32(d.float(1.0, 3.0) * b.rhalf))
        a["mode"] = "nearest"
    if d.bool(3):
        a["r_min"] = float(np.float32(d.float(0, 0.7) * min(b.rhalf, a.get("r_max", np.inf))))
    if d.bool():
        a["exclude_ii"] = True
    return a


def heuristics(d, b):
    a = {}
    if d.bool():
        a["r_guess"] = float(np.float32(d.choice((1e-3, 0.05, 0.5, 0.9, 2.0, 10.0)) * b.rhalf * 2))
    if d.bool():
        a["scale"] = d.choice((1.1, 1.5, 2.0, 4.0, 10.0) if a.get("r_guess", 1e9) < b.rhalf else
                              (1.1, 1.01, 1.5, 2.0, 4.0, 10.0))
    return a


def run(d, s, a, kinds, hn=2):
    b, P, Q = s.b, s.P, s.Q
    refp = ref.pairs(b, P, Q)
    k, r_max, r_min, ex = a["num_neighbors"], a.get("r_max", np.inf), a.get("r_min", 0.0), a.get("exclude_ii", False)
    horizon = np.inf if b.ortho or r_max <= b.rhalf else b.rhalf
    d.note(args=a)
    d.nontrivial((refp[3].reshape(len(Q), len(P)) < r_max).sum(axis=1).max() > k)
    d.label("k>=n" if k >= len(P) else "k<n", "r_max" if "r_max" in a else "no r_max",
            "exclude" if ex else "include")
    for name, nq in common.searchers(d, b, P, kinds, max_cells=1200 if d.bool(8) else 250):
        for _ in range(hn if name in ("aabb", "raw") else 1):
            h = heuristics(d, b)
            args = dict(a, **h)
            ordered = True
            form = d.draw(2)
            res = nq.query(Q, args)
            if form == 0:
                I, J, D, V, W = common.nl_arrays(res.toNeighborList(sort_by_distance=True))
            elif form == 1:
                I, J, D, V, W = common.nl_arrays(res.toNeighborList())
                ordered = False
            else:
                bonds = list(res)
                I = np.array([x[0] for x in bonds], dtype=int)
                J = np.array([x[1] for x in bonds], dtype=int)
                D = np.array([x[2] for x in bonds], dtype=float)
            common.check_nearest(f"{name} {h}", I, J, D, b, P, Q, k, r_max, r_min, ex, refp=refp, horizon=horizon,
                                 ordered=ordered)


def nearest(d):
    s = gen.system(d, nmax=30)
    run(d, s, draw_args(d, s), ("aabb", "link", "raw"))


def nearest_ortho(d):
    """Fully specified: orthorhombic boxes, elongated ones included."""
    s = gen.system(d, nmax=40, kinds=("ortho", "cubic"), wide=False)
    run(d, s, draw_args(d, s), ("aabb", "link"))


def nearest_bulk(d):
    b = gen.box(d, wide=False)
    n, m = d.int(40, 250), d.int(1, 20)
    st = d.weighted((2, "uniform"), (2, "cluster"), (1, "lattice"), (1, "faces"), (1, "dups"))
    P = gen.points(d, b, n, st)
    same = d.bool(4)
    Q = P if same else gen.points(d, b, m, st)
    s = gen.System(b, P, Q, same)
    d.note(box=b.desc(), n=n, m=len(Q), style=st)
    d.label("2D" if b.is2D else "3D", b.kind, st)
    run(d, s, draw_args(d, s), ("aabb", "link"), hn=1)


def ties(d):
    """Lattices: many exactly equal distances."""
    s = gen.system(d, nmax=30, kinds=("cubic", "ortho"), style=d.choice(("lattice", "dups", "faces")), wide=False)
    run(d, s, draw_args(d, s), ("aabb", "link"))


def sparse(d):
    """Few points far apart in large or elongated boxes: the search radius has to grow far."""
    s = gen.system(d, nmin=1, nmax=4, kinds=("cubic", "ortho", "mild"), style="cluster", Lmax=40.0)
    run(d, s, draw_args(d, s), ("aabb", "link", "raw"))


SUBS = [Sub(nearest, 7000), Sub(nearest_ortho, 6000), Sub(nearest_bulk, 1500), Sub(ties, 4000), Sub(sparse, 5000)]
