"""C30: invariance under translation, lattice vectors, relabelling and axis permutations."""

import itertools

import numpy as np

from .. import gen, ref
from ..engine import Discard, Sub, close, equal, require
from . import analyses
from .analyses import ALL

PROP = "C30"
RULE = ("Every analysis of a periodic system on points of a dyadic grid (translations, wrapping and separations are "
        "exact in single precision; tilted boxes included), compared with itself after a random translation with "
        "wrapping, moves of single points by lattice vectors (bonds given as a list, or no neighbors), relabelling "
        "of points and query points, permutations and reflections of the axes, and cubic rotations of points and "
        "orientations together. Oracle: the same results, per-particle results permuted, bonds relabelled, grids "
        "rolled, positions translated. Non-trivial: a transformation other than the identity and nonzero results.")


def transformed(r, inp, p=None, pq=None, shift=None, roll=None, b=None):
    """The results expected after relabelling (p[new] = old), translation by a vector, rolling of grids by fractions."""
    out = {}
    inv = np.argsort(p) if p is not None else None
    invq = np.argsort(pq) if pq is not None else None
    for k, (kind, a, s) in r.items():
        if kind == "query" and pq is not None:
            a = a[pq]
        elif kind in ("point", "label") and p is not None:
            a = a[p]
        elif kind == "axis1" and p is not None:
            a = a[:, p]
        elif kind == "bonds" and p is not None:
            a = (invq[a[0]], inv[a[1]]) + tuple(a[2:])
        elif kind == "grid" and roll is not None:
            a = np.roll(a, [int(round(f * n)) for f, n in zip(roll, a.shape)], axis=range(len(roll)))
        elif kind == "position" and shift is not None:
            a = (a.astype(float) + shift).astype(a.dtype)
        elif kind == "absolute" and (shift is not None or p is not None and k.startswith("buffer")):
            continue
        elif kind == "annealed" and p is not None:
            continue
        out[k] = (kind, a, s)
    return out


def compare(name, got, want, b, rel=2e-5):
    got = {k: v for k, v in got.items() if k in want}
    for k in list(got):
        kind, a, s = got[k]
        if kind == "position":
            v = a.astype(float) - want[k][1].astype(float)
            require(a.shape == want[k][1].shape, f"{name}: {k}: shape")
            m = ref.min_image(b, v, shells=1)
            require(np.all(m < 300 * ref.tol(b)), f"{name}: {k}", got=a, want=want[k][1], off=m)
    pos = [k for k in got if got[k][0] == "position"]
    analyses.compare(name, got, want, skip=pos, rel=rel)


def nonzero(r):
    for kind, a, _ in r.values():
        for x in (a if isinstance(a, tuple) else (a,)):
            x = np.asarray(x)
            if x.size and np.any(np.isfinite(x) & (x != 0)):
                return True
    return False


def weak_centers(inp):
    """Clusters without a definite periodic center are outside of the property."""
    from .c01 import circ_com

    for i in np.unique(inp.arr["idx"]):
        sel = inp.arr["idx"] == i
        for m in (np.ones(sel.sum()), inp.arr["masses"][sel]):
            if np.min(circ_com(inp.b, inp.P[sel], m)[1]) < 0.05:
                raise Discard("no definite center")


SPATIAL = sorted(n for n in ALL if n not in ("Cubatic", "RotationalAutocorrelation", "AngularSeparationGlobal"))


def power_of_two_grid(d, inp):
    if "width" in inp.prm:
        w = tuple(d.choice((2, 4, 8)) for _ in range(inp.b.dims))
        inp.prm["width"] = w
        return True
    return False


def translation(d):
    an = ALL[d.choice([n for n in SPATIAL if n not in ("DiffractionPattern", "PeriodicBuffer")])]
    # the grids are those of orthorhombic boxes
    g, k, kq, inp = analyses.dyadic(d, an, ortho=an.name in ("GaussianDensity", "SphereVoxelization"))
    grid = power_of_two_grid(d, inp)
    if an.name == "ClusterProperties":
        weak_centers(inp)
    if grid:
        w = (tuple(inp.prm["width"]) + (1,))[:3]
        move = np.array([256 // w[i] * d.draw(w[i] - 1) for i in range(3)])
    else:
        move = np.array([d.choice((0, 128, 1, 255, 64)) if d.bool(4) else d.draw(255) for _ in range(3)])
    move[g.dims:] = 0
    d.note(move=move)
    a = an.run(inp)
    out = inp.copy(P=g.positions(k, move), Q=None if kq is None else g.positions(kq, move))
    shift = (move / 256.0) @ g.b.M.T
    if an.name == "MSD":
        out.arr["trajectory"] = (inp.arr["trajectory"].astype(float) + shift).astype(np.float32)
    b = an.run(out)
    want = transformed(a, inp, shift=shift, roll=move[:g.dims] / 256.0)
    compare(f"{an.name}: translated by {move.tolist()}/256", b, want, g.b)
    d.nontrivial(np.any(move) and nonzero(a))


def images(d):
    """Points moved by lattice vectors."""
    names = [n for n in SPATIAL if n not in ("DiffractionPattern", "PeriodicBuffer", "MSD", "GaussianDensity",
                                             "SphereVoxelization") and not n.startswith("query")]
    an = ALL[d.choice(names)]
    g, k, kq, inp = analyses.dyadic(d, an, kinds=("list",))
    if an.name == "ClusterProperties":
        weak_centers(inp)
    if inp.nb is not None:
        nl = inp.nlist()
        inp.nb = ("object", nl)
    a = an.run(inp)

    def moved(P):
        n = d.rng().integers(-2, 3, P.shape)
        if d.bool():
            n *= d.rng().random((len(P), 1)) < 0.3
        n[:, g.dims:] = 0
        return np.ascontiguousarray((P.astype(float) + n @ g.b.M.T).astype(np.float32)), np.any(n)

    P, m1 = moved(inp.P)
    Q, m2 = (None, False) if inp.Q is None else moved(inp.Q)
    out = inp.copy(P=P, Q=Q)
    b = an.run(out)
    compare(f"{an.name}: points moved by lattice vectors", b, transformed(a, inp), g.b)
    d.nontrivial((m1 or m2) and nonzero(a))


def relabel_input(inp, an, p, pq):
    inv, invq = np.argsort(p), np.argsort(pq)
    out = inp.copy(P=np.ascontiguousarray(inp.P[p]), Q=None if inp.Q is None else np.ascontiguousarray(inp.Q[pq]))
    for name, arr in inp.arr.items():
        if name in ("trajectory", "images"):
            out.arr[name] = np.ascontiguousarray(arr[:, p])
        elif name == "idx":
            out.arr[name] = arr[p]
        else:
            out.arr[name] = np.ascontiguousarray(arr[p if an.arrays[name][0] == "point" else pq])
    if inp.nb is not None and inp.nb[0] == "list":
        I, J, W = invq[inp.nb[1]], inv[inp.nb[2]], inp.nb[3]
        o = np.lexsort((J, I))
        out.nb = ("list", I[o], J[o], W[o])
    return out


def drop_exclude_ii(inp):
    """Uses the default of exclude_ii, with which the neighbors have to be free of ties as well."""
    if inp.nb[1].pop("exclude_ii", None) is not None and inp.nb[1].get("mode") == "nearest":
        I, J, _, D = ref.pairs(inp.b, inp.P, inp.q)
        analyses.check_ties(inp.b, I, J, D, inp.Q is None, inp.nb[1]["num_neighbors"], ref.tol(inp.b))


def relabelling(d):
    an = ALL[d.choice(sorted(ALL))]
    inp = analyses.dyadic(d, an)[3] if d.bool() else analyses.general(d, an, style="uniform")
    if inp.nb is not None and inp.nb[0] == "args" and inp.Q is not None:
        # whether equal indices are excluded depends on the labels
        drop_exclude_ii(inp)
    p = d.perm(len(inp.P))
    pq = p if inp.Q is None else d.perm(len(inp.Q))
    if an.name == "ClusterProperties":
        weak_centers(inp)
    if an.name in ("FilterRAD", "FilterSANN") and not distinct(inp):
        raise Discard("equal distances")
    a = an.run(inp)
    b = an.run(relabel_input(inp, an, p, pq))
    want = transformed(a, inp, p, pq)
    if an.name == "PeriodicBuffer":
        # the buffer in the order of the points
        ia, ib = a["buffer_ids"][1], p[np.asarray(b["buffer_ids"][1]).astype(int)]
        x, y = a["buffer_points"][1], b["buffer_points"][1]
        equal("PeriodicBuffer: ids of relabelled points", np.sort(ib), np.sort(ia))
        oa, ob = order(ia, x, inp.b), order(ib, y, inp.b)
        close("PeriodicBuffer: relabelled points", y[ob], x[oa], rtol=0, atol=20 * ref.tol(inp.b))
        d.nontrivial(len(ia) > 0 and np.any(p != np.arange(len(p))))
        return
    compare(f"{an.name}: relabelled", b, want, inp.b)
    d.nontrivial((np.any(p != np.arange(len(p))) or np.any(pq != np.arange(len(pq)))) and nonzero(a))


def order(ids, x, b):
    """A sorting by id and cell coordinates (rounded to half of the smallest resolvable step)."""
    f = np.rint(ref.frac(b, x.astype(float)) * 50).astype(int)
    return np.lexsort((f[:, 2], f[:, 1], f[:, 0], ids))


def distinct(inp):
    I, J, V, D = ref.pairs(inp.b, inp.P, inp.q)
    if not len(I):
        return True
    D = np.sort(D.reshape(len(inp.q), -1), axis=1)
    return not np.any(np.diff(D, axis=1) < 1e-3 * inp.b.rhalf)


def axes(d):
    """Permutations and reflections of the axes."""
    names = sorted(n for n in ALL if ALL[n].rotation) + ["query_aabb", "query_link", "query_cell", "query_raw"]
    an = ALL[d.choice(names)]
    g, k, kq, inp = analyses.dyadic(d, an, ortho=True)
    perms = [(0, 1, 2), (1, 0, 2)] if g.dims == 2 else list(itertools.permutations(range(3)))
    p = list(d.choice(perms))
    flip = np.array([d.bool() for _ in range(g.dims)] + [False] * (3 - g.dims))
    d.note(axes=p, flip=flip)

    def tr(x):
        y = np.array(x)[:, p]
        y[:, flip] = (256 - y[:, flip]) % 256
        return y

    L = np.array([g.b.Lx, g.b.Ly, g.b.Lz])[p]
    b2 = gen.BoxSpec(*L, is2D=g.b.is2D)
    g2 = analyses.Dyadic.__new__(analyses.Dyadic)
    g2.b, g2.dims = b2, g.dims
    out = inp.copy(b=b2, P=g2.positions(tr(k)), Q=None if kq is None else g2.positions(tr(kq)))
    a, b = an.run(inp), an.run(out)
    a = {n: v if v[0] != "bonds" else ("bonds", v[1][:3], v[2]) for n, v in a.items()}
    b = {n: v if v[0] != "bonds" else ("bonds", v[1][:3], v[2]) for n, v in b.items()}
    compare(f"{an.name}: axes {p} reflected {flip.tolist()}", b, a, g.b)
    d.nontrivial((p != [0, 1, 2] or flip.any()) and nonzero(a))


def rotation(d):
    """Rotations by multiples of 90 degrees of points and orientations together."""
    an = ALL[d.choice(("PMFTR12", "PMFTXYT", "PMFTXY", "PMFTXYZ", "BondOrder", "AngularSeparationNeighbor",
                       "LocalBondProjection", "AngularSeparationGlobal", "Cubatic", "Hexatic"))]
    g, k, kq, inp = analyses.dyadic(d, an, ortho=True)
    # generic orientations, so that no value is at the edge of a bin
    rg = d.rng()
    for name in inp.arr:
        x = inp.arr[name]
        if x.ndim == 2:
            q = rg.normal(size=x.shape)
            inp.arr[name] = (q / np.linalg.norm(q, axis=1, keepdims=True)).astype(np.float32)
        elif x.dtype == np.float32:
            inp.arr[name] = rg.uniform(0, 6, x.shape).astype(np.float32)
    if an.neighbors:
        if inp.Q is None and inp.nb is not None and inp.nb[0] == "args":
            drop_exclude_ii(inp)
        I, J, _, D = ref.pairs(inp.b, inp.P, inp.q)
        if np.any((D == 0) & ((I != J) | (inp.Q is not None))):
            raise Discard("bonds without a direction")
    if an.name == "BondOrder":
        if inp.prm["mode"] in ("bod", "obcd"):
            inp.prm["mode"] = d.choice(("lbod", "oocd"))
    if g.dims == 2:
        n = d.int(1, 3)
        qr = np.array([np.cos(n * np.pi / 4), 0, 0, np.sin(n * np.pi / 4)])
        R = np.linalg.matrix_power(np.array([[0, -1, 0], [1, 0, 0], [0, 0, 1]]), n)
    else:
        C = gen.rotation_choices()
        qr = C[d.int(1, 23)]
        R = np.rint(np.array([ref.qrot(qr, e) for e in np.eye(3)]).T).astype(int)
    L = np.abs(R) @ np.array([g.b.Lx, g.b.Ly, g.b.Lz])
    b2 = gen.BoxSpec(*L, is2D=g.b.is2D)
    g2 = analyses.Dyadic.__new__(analyses.Dyadic)
    g2.b, g2.dims = b2, g.dims

    def tr(x):
        return (np.array(x) - 128) @ R.T + 128

    out = inp.copy(b=b2, P=g2.positions(tr(k)), Q=None if kq is None else g2.positions(tr(kq)))
    for name, x in inp.arr.items():
        if x.ndim == 2:
            out.arr[name] = ref.qmul(qr, x.astype(float)).astype(np.float32)
        else:
            out.arr[name] = (x.astype(float) + n * np.pi / 2).astype(np.float32)
    d.note(rotation=R)
    if an.name == "AngularSeparationGlobal":
        out.prm = dict(inp.prm)
        out.prm["glob"] = ref.qmul(qr, inp.prm["glob"].astype(float)).astype(np.float32)
    a, b = an.run(inp), an.run(out)
    d.nontrivial(nonzero(a))
    if an.name.startswith("PMFT") or an.name == "BondOrder":
        x, y = a["bin_counts"][1].astype(int), b["bin_counts"][1].astype(int)
        require(x.shape == y.shape, "bin_counts: shape")
        # a value may cross an edge by rounding (or enter or leave the histogram)
        m = len(inp.prm.get("equiv", (0,)))
        diff = np.abs(x - y).sum()
        require(diff <= 4 * m, f"{an.name}: rotated system: {diff} counts differ", before=x, after=y)
        return
    if an.name == "Hexatic":
        w = inp.prm["k"]
        close("Hexatic: rotated system", b["particle_order"][1], a["particle_order"][1] * 1j ** (w * n), rtol=0,
              atol=1e-4 + 1e-5 * w) if np.all(np.isfinite(a["particle_order"][1])) else None
        return
    if an.name == "Cubatic":
        close("Cubatic: particle order of the rotated system", b["particle_order"][1], a["particle_order"][1], rtol=0,
              atol=1e-4)
        T = a["global_tensor"][1]
        T = np.einsum("ai,bj,ck,dl,ijkl->abcd", R, R, R, R, T)
        close("Cubatic: global tensor of the rotated system", b["global_tensor"][1], T, rtol=0, atol=1e-4)
        return
    keep = ("angles", "projections", "normed_projections")
    for nm in keep:
        if nm in a:
            va, vb = a[nm][1], b[nm][1]
            if a[nm][0] == "bonds":
                equal(f"{an.name}: bonds", np.stack(va[:2]), np.stack(vb[:2]))
                va, vb = va[2], vb[2]
            s = np.abs(va).max() if va.size else 0
            t = 5e-3 if nm == "angles" else 3e-5 * s
            close(f"{an.name}: {nm} of the rotated system", vb, va, rtol=0, atol=t)


SUBS = [Sub(translation, 900), Sub(images, 500), Sub(relabelling, 900), Sub(axes, 500), Sub(rotation, 500)]
