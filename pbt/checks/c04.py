"""C04: ball queries return exactly the pairs in range."""

import numpy as np

from .. import gen, ref
from ..engine import Discard, Sub, equal, require
from . import common

PROP = "C04"
RULE = ("Systems: 2D/3D boxes (cubic, orthorhombic, mildly and strongly tilted, elongated, lengths 0.2 to 3000), 1 to "
        "60 (bulk: 600) points of uniform, clustered, lattice, face and duplicate styles, query points equal, "
        "overlapping or different; r_max 0.05 to 0.98 of half the nearest plane distance; all four search "
        "structures with random cell widths. Oracle: all-pairs float64 reference. Non-trivial: at least one pair is "
        "in range and at least one is out of range.")


def args_of(a):
    return dict(r_max=a["r_max"], r_min=a.get("r_min", 0.0), exclude_ii=a.get("exclude_ii", False))


def run(d, s, a, kinds, tol=None):
    b, P, Q = s.b, s.P, s.Q
    refp = ref.pairs(b, P, Q)
    d.note(args=a)
    inr = refp[3] < a["r_max"]
    d.nontrivial(inr.any() and not inr.all())
    d.label("r_min" if a.get("r_min") else "no r_min", "exclude" if a.get("exclude_ii") else "include",
            "self" if s.same else "other")
    for name, nq in common.searchers(d, b, P, kinds):
        if d.bool(4):
            bonds = list(nq.query(Q, a))
            I = np.array([x[0] for x in bonds], dtype=int)
            J = np.array([x[1] for x in bonds], dtype=int)
            D = np.array([x[2] for x in bonds], dtype=float)
        else:
            I, J, D, V, W = common.nl_arrays(nq.query(Q, a).toNeighborList())
        common.check_ball(name, I, J, D, b, P, Q, tol=tol, refp=refp, **args_of(a))


def ball(d):
    s = gen.system(d, nmax=40)
    a = gen.ball_args(d, s.b)
    if d.bool(5):
        a.pop("mode")  # the mode is inferred
    run(d, s, a, ("aabb", "link", "cell", "raw"))


def ball_small_r(d):
    """Small cutoffs and fine cells: many cells per search radius or many radii per cell."""
    s = gen.system(d, nmax=60, style=d.choice(("cluster", "lattice", "dups")), wide=False)
    r = float(np.float32(d.float(0.04, 0.3) * s.b.rhalf))
    # the memory of CellQuery grows with the bounding box of a tilted box over the cutoff
    ext = np.abs(s.b.M).sum(axis=1)[: s.b.dims]
    r = max(r, float(np.float32((np.prod(ext) / 5e5) ** (1 / s.b.dims))))
    if r > 0.95 * s.b.rhalf:
        raise Discard("too many cells")
    a = {"r_max": r, "mode": "ball"}
    if d.bool(4):
        a["exclude_ii"] = True
    run(d, s, a, ("aabb", "link", "cell"))


def ball_bulk(d):
    b = gen.box(d, wide=False)
    n, m = d.int(60, 400), d.int(1, 60)
    st = d.weighted((2, "uniform"), (2, "cluster"), (1, "lattice"), (1, "faces"))
    P = gen.points(d, b, n, st)
    same = d.bool()
    Q = P if same else gen.points(d, b, m, st)
    s = gen.System(b, P, Q, same)
    d.note(box=b.desc(), n=n, m=len(Q), style=st)
    d.label("2D" if b.is2D else "3D", b.kind, st)
    a = gen.ball_args(d, b)
    run(d, s, a, ("aabb", "link", "cell", "raw"))


def exact(d):
    """Dyadic coordinates: the arithmetic is exact, so that the half-open interval [r_min, r_max) is decided."""
    is2D = d.bool()
    L = [float(d.choice((8, 16, 4))) for _ in range(3)]
    b = gen.BoxSpec(L[0], L[1], 0 if is2D else L[2], is2D=is2D, kind="exact")
    n, m = d.int(1, 10), d.int(1, 10)
    # a restricted set of offsets makes ties with the cutoffs common
    def pts(k):
        X = np.array([[d.int(-8, 7) / 16 * L[j] for j in range(3)] for _ in range(k)])
        if is2D:
            X[:, 2] = 0
        return X.astype(np.float32)

    P = pts(n)
    same = d.bool()
    Q = P if same else pts(m)
    half = min(L[:b.dims]) / 2
    cands = [x for x in (0.25, 0.5, 0.75, 1.0, 1.25, 1.5, 1.75, 2.0, 2.5, 3.0, 3.75, 5.0, 6.0, 7.5) if x < half]
    I, J, V, D = ref.pairs(b, P, Q)
    # distances that occur and are represented exactly are the interesting cutoffs
    occ = sorted({float(x) for x in D if 0 < x < half and float(x) * 4096 == int(float(x) * 4096)})
    if occ and d.bool():
        cands = occ
    r_max = d.choice(cands)
    a = {"r_max": r_max, "mode": "ball", "exclude_ii": d.bool()}
    if d.bool():
        a["r_min"] = d.choice([x for x in cands if x < r_max] or [0.0])
    s = gen.System(b, P, Q, same)
    d.note(**s.desc())
    keep = (D < a["r_max"]) & (D >= a.get("r_min", 0.0))
    if a["exclude_ii"]:
        keep &= I != J
    d.nontrivial(np.any(D == r_max) or np.any(D == a.get("r_min", -1)))
    want = list(zip(I[keep].tolist(), J[keep].tolist()))
    for name, nq in common.searchers(d, b, P):
        i, j, dist, vec, w = common.nl_arrays(nq.query(Q, a).toNeighborList())
        got = list(zip(i.tolist(), j.tolist()))
        require(got == want, f"{name}: bonds differ from the exact pairs", missing=sorted(set(want) - set(got))[:5],
                extra=sorted(set(got) - set(want))[:5], args=a)
        equal(f"{name}: distances", dist, D[keep].astype(np.float32))


def requery(d):
    """One structure queried repeatedly with different arguments and query points."""
    s = gen.system(d, nmax=30, wide=False)
    objs = common.searchers(d, s.b, s.P)
    n = d.int(2, 4)
    for _ in range(n):
        Q = s.P if d.bool() else gen.points(d, s.b, gen.npts(d, 1, 12))
        a = gen.ball_args(d, s.b)
        refp = ref.pairs(s.b, s.P, Q)
        d.nontrivial((refp[3] < a["r_max"]).any())
        for name, nq in objs:
            I, J, D, V, W = common.nl_arrays(nq.query(Q, a).toNeighborList())
            common.check_ball(name, I, J, D, s.b, s.P, Q, refp=refp, **args_of(a))


def partial(d):
    """Raw points in boxes that are not periodic along some axes."""
    s = gen.system(d, nmax=20, wide=False)
    b0 = s.b
    per = (d.bool(), d.bool(), d.bool())
    b = gen.BoxSpec(b0.Lx, b0.Ly, b0.Lz, b0.xy, b0.xz, b0.yz, b0.is2D, per, b0.kind)
    a = gen.ball_args(d, b)
    d.note(box=b.desc())
    s2 = gen.System(b, s.P, s.Q, s.same)
    run(d, s2, a, ("raw",))


SUBS = [Sub(ball, 3500), Sub(ball_small_r, 1500), Sub(ball_bulk, 300), Sub(exact, 3000), Sub(requery, 800),
        Sub(partial, 1000)]
