"""C31: all ways of specifying the neighbors and the system."""

import numpy as np

from .. import gen, ref
from ..engine import Discard, Sub, equal, require
from . import analyses
from .analyses import ALL

PROP = "C31"
RULE = ("Every analysis that takes neighbors on random systems without ties: the default against the documented query "
        "arguments, query arguments against the list they give, the points as query points against no query points, "
        "and systems given as pairs, search structures of each kind and objects of other packages. Bonds of a list "
        "are split in two: counts add, results per bond stay; an empty list gives empty results. Oracle: equal "
        "results. Non-trivial: at least one bond.")

PAIR = sorted(n for n in ALL if ALL[n].neighbors and not n.startswith("query"))


class Hoomd2:
    """Has the attributes freud looks for in systems of HOOMD-blue 2."""

    def __init__(self, box, points):
        class O:
            pass

        self.box = O()
        for k in ("Lx", "Ly", "Lz", "xy", "xz", "yz"):
            setattr(self.box, k, getattr(box, k))
        self.box.dimensions = 2 if box.is2D else 3
        self.particles = O()
        self.particles.position = points


class Pointed:
    def __init__(self, box, points):
        self.box, self.points = box, points


def systems(d, inp, nearest):
    """(name, system) in all ways."""
    import freud

    b, P, fb = inp.b, inp.P, inp.b.fb
    out = [("pair", (fb, P)), ("AABBQuery", freud.locality.AABBQuery(fb, P)),
           ("LinkCell", freud.locality.LinkCell(fb, P)), ("list pair", [fb, P]),
           ("from_system", freud.locality.NeighborQuery.from_system((fb, P))),
           ("array box", (np.array([b.Lx, b.Ly, b.Lz, b.xy, b.xz, b.yz]) if not b.is2D else
                          dict(Lx=b.Lx, Ly=b.Ly, xy=b.xy, dimensions=2), P)),
           ("matrix box", (fb.to_matrix() if b.ortho and not b.is2D else fb, P)),
           ("hoomd 2", Hoomd2(fb, P)), ("box and points", Pointed(fb, P)), ("points list", (fb, P.tolist())),
           ("double", (fb, P.astype(np.float64)))]
    from .common import cell_widths

    out.append(("LinkCell of a width", freud.locality.LinkCell(fb, P, cell_widths(d, b, 3000))))
    if not nearest:
        out.append(("CellQuery", freud.locality.CellQuery(fb, P)))
    import gsd.hoomd

    f = gsd.hoomd.Frame()
    f.particles.N = len(P)
    f.particles.position = P
    f.configuration.dimensions = b.dims
    f.configuration.box = [b.Lx, b.Ly, b.Lz if not b.is2D else 1.0, b.xy, b.xz, b.yz]
    out.append(("gsd frame", f))
    out.append(("ovito", module_class("ovito.data.DataCollection", cell=Plain(
        matrix=np.column_stack([fb.to_matrix(), [0.0, 0.0, 0.0]]), is2D=b.is2D), particles=Plain(positions=P))))
    out.append(("garnett", module_class("garnett.trajectory.Frame", box=fb, positions=P)))
    out.append(("garnett 0.7", module_class("garnett.trajectory.Frame", box=fb, position=P)))
    if not b.is2D:
        out.append(("MDAnalysis", mdanalysis(fb, P)))
    return out


class Plain:
    def __init__(self, **kw):
        self.__dict__.update(kw)


def module_class(path, **kw):
    """An object whose class has the given path."""
    module, name = path.rsplit(".", 1)
    return type(name, (Plain,), {"__module__": module})(**kw)


def mdanalysis(fb, P):
    """A time step of MDAnalysis (which describes the box by lengths and angles)."""
    import warnings

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        from MDAnalysis.coordinates.timestep import Timestep
        from MDAnalysis.lib.mdamath import triclinic_box

        ts = Timestep(len(P))
        ts.positions = P
        ts.dimensions = triclinic_box(*fb.to_matrix().T)
    return ts


def nonempty(r):
    for kind, a, _ in r.values():
        if kind == "bonds":
            return len(a[0]) > 0
    return any(np.any(np.isfinite(a) & (a != 0)) for kind, a, _ in r.values() if kind in ("global", "query", "grid"))


def exact_args(inp, an, args):
    a = dict(args)
    if inp.Q is None:
        a.setdefault("exclude_ii", True)
    if an.name == "Interface":
        # given query points
        a = dict(args)
        a.setdefault("exclude_ii", False)
    return a


def specification(d):
    """Default, query arguments and the list they give."""
    import freud

    an = ALL[d.choice(PAIR)]
    inp = analyses.general(d, an, kinds=("default", "ball", "nearest"), style=d.choice(("uniform", "cluster")))
    if not inp.b.ortho and inp.nb is not None and inp.nb[1].get("mode") == "nearest" and "r_max" not in inp.nb[1]:
        raise Discard("nearest in a tilted box")
    a = an.run(inp)
    args = an.default_args(inp) if inp.nb is None else inp.nb[1]
    if inp.nb is None:
        compare(an, "default against the documented query arguments", an.run(inp.copy(nb=("args", dict(args)))), a, inp)
    full = exact_args(inp, an, args)
    kind = d.choice(("raw", "aabb", "link"))
    nq = {"aabb": freud.locality.AABBQuery, "link": freud.locality.LinkCell,
          "raw": lambda b, p: freud.locality.NeighborQuery.from_system((b, p))}[kind](inp.b.fb, inp.P)
    nl = nq.query(inp.q, full).toNeighborList(sort_by_distance=d.bool() and not an.name.startswith("Filter"))
    compare(an, f"list of {kind} against query arguments", an.run(inp.copy(nb=("object", nl))), a, inp)
    # a list rebuilt from its arrays
    nl2 = freud.locality.NeighborList.from_arrays(len(inp.q), len(inp.P), nl.query_point_indices, nl.point_indices,
                                                  nl.vectors, nl.weights)
    compare(an, "list from arrays against query arguments", an.run(inp.copy(nb=("object", nl2))), a, inp)
    # r_max of a dictionary without the mode; the query arguments are not changed
    if inp.nb is not None and "num_neighbors" not in inp.nb[1]:
        s = {k: v for k, v in inp.nb[1].items() if k != "mode"}
        keep = dict(s)
        o = an.make(inp.prm)
        got = inp.copy(nb=("object", s))
        an.compute(o, got, inp.system())
        compare(an, "query arguments without mode", an.results(o, inp), a, inp)
        require(s == keep, "query arguments modified", got=s, want=keep)
    d.nontrivial(nonempty(a))


COUNTED = ("RDF", "CorrelationFunction", "PMFTR12", "PMFTXYT", "PMFTXY", "PMFTXYZ", "BondOrder")


def rounding(inp, an):
    """(relative error of directions, absolute error of vectors) between search structures."""
    D = ref.pairs(inp.b, inp.P, inp.q)[3]
    D = D[D > 0]
    t = ref.tol(inp.b)
    rel = 2e-5 + (20 * t / D.min() if D.size and an.name in ("Hexatic", "LocalBondProjection") else 0)
    if rel > 1e-2:
        raise Discard("close points")
    return rel, t


def compare(an, name, got, want, inp):
    rel, t = rounding(inp, an)
    if an.name in COUNTED and got["bin_counts"][1].shape == want["bin_counts"][1].shape:
        n = np.abs(got["bin_counts"][1].astype(float) - want["bin_counts"][1].astype(float)).sum()
        if 0 < n <= 2 * len(inp.prm.get("equiv", (0,))):
            raise Discard("a bond at the edge of a bin")
    analyses.compare(f"{an.name}: {name}", got, want, rel=rel, vtol=t)


def query_points(d):
    """The points given as query points, against no query points."""
    names = [n for n in PAIR if ALL[n].query and n != "Interface"]
    an = ALL[d.choice(names)]
    inp = analyses.general(d, an, kinds=("ball", "nearest", "list"), style=d.choice(("uniform", "cluster")))
    if inp.Q is not None:
        inp.Q = None
        for k, (per, gf) in an.arrays.items():
            if per == "query":
                inp.arr[k] = gf(d, len(inp.P))
        inp.nb = analyses.neighbors(d, inp, an, kinds=("ball", "nearest", "list"))
    if "query_values" in an.arrays and "query_values" not in inp.arr:
        inp.arr["query_values"] = inp.arr["values"]
    if inp.nb[0] == "args" and "exclude_ii" not in inp.nb[1]:
        with_ex = ("args", dict(inp.nb[1], exclude_ii=True))
    else:
        with_ex = inp.nb
    a = an.run(inp)
    b = an.run(inp.copy(Q=inp.P.copy(), nb=with_ex))
    if an.name == "RDF":
        # the normalisation may count the points differently
        b = {k: b[k] for k in ("bin_counts", "bin_edges")}
        a = {k: a[k] for k in ("bin_counts", "bin_edges")}
    compare(an, "points as query points", b, a, inp)
    d.nontrivial(nonempty(a))


def system(d):
    an = ALL[d.choice(PAIR + ["GaussianDensity", "SphereVoxelization", "StaticStructureFactorDebye", "PeriodicBuffer",
                              "ClusterProperties", "DiffractionPattern"])]
    inp = analyses.general(d, an, kinds=("default", "ball", "nearest", "list"), nmax=30,
                           style=d.choice(("uniform", "cluster")))
    a = an.run(inp)
    nearest = (inp.nb is None and (an.default_args(inp) or {}).get("mode") == "nearest") or \
        (inp.nb is not None and inp.nb[0] == "args" and "num_neighbors" in inp.nb[1])
    ways = systems(d, inp, nearest)
    for _ in range(3):
        name, s = d.choice(ways)
        try:
            r = an.run(inp, sys=s)
        except ValueError as e:
            if an.name == "FilterRAD":
                raise Discard(str(e)) from e
            raise
        compare(an, f"system as {name}", r, a, inp)
        d.label("as " + name)
    # a search structure used twice
    o = d.choice(ways)[1]
    an.run(inp, sys=o)
    compare(an, "system used twice", an.run(inp, sys=o), a, inp)
    d.nontrivial(nonempty(a) or an.neighbors is None)


ADD = ("RDF", "CorrelationFunction", "PMFTR12", "PMFTXYT", "PMFTXY", "PMFTXYZ", "BondOrder", "LocalDensity",
       "Interface", "AngularSeparationNeighbor", "LocalBondProjection")


def only_listed(d):
    """Only the bonds in the list are used."""
    an = ALL[d.choice(ADD)]
    inp = analyses.general(d, an, kinds=("list",))
    _, I, J, W = inp.nb
    sel = d.rng().random(len(I)) < d.choice((0.5, 0.1, 0.9))
    full = an.run(inp)
    one = an.run(inp.copy(nb=("list", I[sel], J[sel], W[sel])))
    two = an.run(inp.copy(nb=("list", I[~sel], J[~sel], W[~sel])))
    if "bin_counts" in full:
        equal(f"{an.name}: counts of the parts of a list", one["bin_counts"][1].astype(float) +
              two["bin_counts"][1].astype(float), full["bin_counts"][1].astype(float))
    elif an.name == "LocalDensity":
        analyses.value("LocalDensity: parts of a list", (one["num_neighbors"][1] + two["num_neighbors"][1]).astype("f"),
                       full["num_neighbors"][1].astype("f"), 1.0, 1e-4)
    elif an.name == "Interface":
        for k in ("query_point_ids", "point_ids"):
            equal(f"Interface: {k} of the parts of a list", np.maximum(one[k][1], two[k][1]), full[k][1])
    else:
        for k in full:
            f, x, y = full[k][1], one[k][1], two[k][1]
            for i in range(len(f)):
                equal(f"{an.name}: {k} of a part of a list", np.asarray(x[i]), np.asarray(f[i])[sel]) \
                    if np.asarray(f[i]).dtype.kind != "f" else \
                    analyses.value(f"{an.name}: {k} of a part of a list", np.asarray(x[i]), np.asarray(f[i])[sel],
                                   None, 2e-5)
                require(len(y[i]) == (~sel).sum(), f"{an.name}: {k}: length")
    d.nontrivial(sel.any() and not sel.all())


def empty(d):
    """An empty list gives empty results, not those of the default."""
    an = ALL[d.choice(PAIR)]
    inp = analyses.general(d, an, kinds=("list",), nmax=20)
    z = np.zeros(0, dtype=int)
    o = an.make(inp.prm)
    if d.bool():
        an.run(inp, o)
    r = an.run(inp.copy(nb=("list", z, z, np.zeros(0, dtype=np.float32))), o)
    for k, (kind, a, _) in r.items():
        if k in ("bin_counts", "correlation", "bond_order", "rdf", "n_r", "num_neighbors", "density", "point_count",
                 "query_point_count", "query_point_ids", "point_ids", "pcf"):
            x = np.asarray(a)
            require(np.all((x == 0) | np.isnan(x)), f"{an.name}: {k} of an empty list", got=x)
            if k == "bin_counts":
                require(np.all(x == 0), f"{an.name}: {k} of an empty list", got=x)
        if kind == "bonds":
            require(all(len(x) == 0 for x in a), f"{an.name}: {k} of an empty list", got=a)
    if an.name == "Cluster":
        equal("Cluster: empty list", r["num_clusters"][1], len(inp.P))
    d.nontrivial(len(inp.nb[1]) > 0)


SUBS = [Sub(specification, 700), Sub(query_points, 300), Sub(system, 600), Sub(only_listed, 400), Sub(empty, 200)]
