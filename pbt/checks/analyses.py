"""The analyses as functions of plain inputs, for the properties that hold for all of them (C29 to C32).

An Input is data only (box, points, query points, arrays per point and per query point, neighbors), so that it can
be transformed (translated, permuted, given with other dtypes) and sent to another process.  Every analysis gives
its results as {name: (kind, array, scale)}: kind says how a result transforms ('global', 'query', 'point', 'bonds',
'label', 'grid', 'position'), scale bounds the rounding of floating-point results.
"""

import numpy as np

from .. import gen, ref
from ..engine import Discard, close, equal, require


class Input:
    def __init__(self, b, P, Q=None, arr=None, nb=None, prm=None, shift=None):
        self.b, self.P, self.Q = b, P, Q
        self.arr = arr or {}
        self.nb = nb  # None, ("args", dict) or ("list", I, J, W)
        self.prm = prm or {}

    def copy(self, **kw):
        o = Input(self.b, self.P, self.Q, dict(self.arr), self.nb, self.prm)
        for k, v in kw.items():
            setattr(o, k, v)
        return o

    @property
    def q(self):
        """The query points."""
        return self.P if self.Q is None else self.Q

    def __getstate__(self):
        d = dict(self.__dict__)
        b = self.b
        d["b"] = (b.Lx, b.Ly, b.Lz, b.xy, b.xz, b.yz, b.is2D, b.periodic)
        return d

    def __setstate__(self, d):
        self.__dict__.update(d)
        self.b = gen.BoxSpec(*d["b"][:6], is2D=d["b"][6], periodic=d["b"][7])

    def desc(self):
        return {"box": self.b.desc(), "points": self.P, "query_points": self.Q, "neighbors": self.nb, "prm": self.prm,
                "arrays": self.arr}

    def nlist(self):
        """The neighbor list of a ("list", ...) specification."""
        import freud

        _, I, J, W = self.nb
        P, Q = np.asarray(self.P, dtype=float), np.asarray(self.q, dtype=float)
        V = ref.wrap(self.b, P[J] - Q[I]) if len(I) else np.zeros((0, 3))
        return freud.locality.NeighborList.from_arrays(len(Q), len(P), I, J, V.astype(np.float32),
                                                       np.asarray(W, dtype=np.float32))

    def kw(self):
        k = {}
        if self.Q is not None:
            k["query_points"] = self.Q
        if self.nb is not None:
            k["neighbors"] = dict(self.nb[1]) if self.nb[0] == "args" else \
                (self.nlist() if self.nb[0] == "list" else self.nb[1])
        return k

    def system(self):
        return (self.b.fb, self.P)


class Analysis:
    name = ""
    dims = None
    neighbors = None  # None, "opt" (has a default) or "req"
    query = True
    arrays = {}  # name of array: (per "point"/"query", generator)
    rotation = False  # invariant under permutations of the axes
    nbkinds = ("list", "ball", "nearest", "default")

    def draw(self, d, b, same):
        return {"r_max": gen.rmax(d, b, lo=0.3)}

    def fill(self, d, inp):
        """Draws the arrays per point and query point."""
        for k, (per, g) in self.arrays.items():
            inp.arr[k] = g(d, len(inp.P) if per == "point" else len(inp.q))

    def default_args(self, inp):
        """The query arguments documented as the default."""

    def make(self, prm):
        raise NotImplementedError

    def compute(self, o, inp, sys=None):
        raise NotImplementedError

    def results(self, o, inp):
        raise NotImplementedError

    def run(self, inp, o=None, sys=None):
        o = self.make(inp.prm) if o is None else o
        self.compute(o, inp, inp.system() if sys is None else sys)
        return self.results(o, inp)


ALL = {}


def register(cls):
    ALL[cls.name] = cls()
    return cls


def _complex(d, n):
    g = d.rng()
    if d.bool():
        return g.normal(size=n) + 1j * g.normal(size=n)
    return g.normal(size=n)


def _angles(d, n):
    return gen.angles(d, n)


def _quats(d, n):
    return gen.quats(d, n)


def _weights(d, n):
    return d.rng().uniform(0.2, 3, n) if d.bool() else np.ones(n)


def G(x, scale=None):
    return ("global", np.array(x), scale)


def nl_result(nl, prefix="", order=True):
    I, J = np.array(nl.query_point_indices).astype(int), np.array(nl.point_indices).astype(int)
    return {prefix + "bonds": ("bonds", (I, J, np.array(nl.distances), np.array(nl.vectors), np.array(nl.weights)),
                               None)}


@register
class RDF(Analysis):
    name, neighbors, rotation = "RDF", "opt", True

    def draw(self, d, b, same):
        r = gen.rmax(d, b, lo=0.3)
        return {"r_max": r, "bins": d.int(1, 30), "r_min": 0.0 if d.bool() else 0.37 * r,
                "mode": d.choice(("exact", "finite_size"))}

    def default_args(self, inp):
        # r_min of the histogram is not one of the query
        return {"mode": "ball", "r_max": inp.prm["r_max"]}

    def make(self, p):
        import freud

        return freud.density.RDF(p["bins"], p["r_max"], p["r_min"], normalization_mode=p["mode"])

    def compute(self, o, inp, sys):
        o.compute(sys, **inp.kw())

    def results(self, o, inp):
        return {k: G(getattr(o, k)) for k in ("bin_counts", "rdf", "n_r", "bin_edges", "bin_centers")}


@register
class LocalDensity(Analysis):
    name, neighbors, rotation = "LocalDensity", "opt", True

    def draw(self, d, b, same):
        r = gen.rmax(d, b, lo=0.3)
        dia = 0.31 * r * d.choice((1.0, 0.3, 0.0))
        return {"r_max": float(np.float32(r - dia / 2)), "diameter": float(np.float32(dia))}

    def default_args(self, inp):
        return {"mode": "ball", "r_max": inp.prm["r_max"] + 0.5 * inp.prm["diameter"]}

    def make(self, p):
        import freud

        return freud.density.LocalDensity(p["r_max"], p["diameter"])

    def compute(self, o, inp, sys):
        o.compute(sys, **inp.kw())

    def results(self, o, inp):
        return {k: ("query", np.array(getattr(o, k)), None) for k in ("density", "num_neighbors")}


@register
class CorrelationFunction(Analysis):
    name, neighbors, rotation = "CorrelationFunction", "opt", True
    arrays = {"values": ("point", _complex), "query_values": ("query", _complex)}

    def draw(self, d, b, same):
        return {"r_max": gen.rmax(d, b, lo=0.3), "bins": d.int(1, 20)}

    def fill(self, d, inp):
        super().fill(d, inp)
        if inp.Q is None and d.bool():
            inp.arr.pop("query_values")

    def default_args(self, inp):
        return {"mode": "ball", "r_max": inp.prm["r_max"]}

    def make(self, p):
        import freud

        return freud.density.CorrelationFunction(p["bins"], p["r_max"])

    def compute(self, o, inp, sys):
        kw = inp.kw()
        if "query_values" in inp.arr:
            kw["query_values"] = inp.arr["query_values"]
        o.compute(sys, inp.arr["values"], **kw)

    def results(self, o, inp):
        a = np.abs(inp.arr["values"]).max(initial=0)
        b = np.abs(inp.arr.get("query_values", inp.arr["values"])).max(initial=0)
        return {"correlation": G(o.correlation, a * b), "bin_counts": G(o.bin_counts)}


class _PMFT(Analysis):
    neighbors = "opt"

    def results(self, o, inp):
        return {"bin_counts": G(o.bin_counts), "pcf": G(o._pcf), "pmft": G(o.pmft, 1.0)}

    def default_args(self, inp):
        return {"mode": "ball", "r_max": inp.prm["r"]}


@register
class PMFTR12(_PMFT):
    name, dims = "PMFTR12", 2
    arrays = {"orientations": ("point", _angles), "query_orientations": ("query", _angles)}

    def draw(self, d, b, same):
        return {"r": gen.rmax(d, b, lo=0.3), "bins": tuple(d.int(1, 7) for _ in range(3))}

    def make(self, p):
        import freud

        return freud.pmft.PMFTR12(p["r"], p["bins"])

    def compute(self, o, inp, sys):
        o.compute(sys, inp.arr["orientations"], query_orientations=inp.arr["query_orientations"], **inp.kw())


@register
class PMFTXYT(PMFTR12):
    name = "PMFTXYT"

    def draw(self, d, b, same):
        r = gen.rmax(d, b, lo=0.3)
        x, y = 0.7 * r, d.choice((0.7, 0.31)) * r
        return {"x": x, "y": y, "r": float(np.sqrt(x ** 2 + y ** 2)), "bins": tuple(d.int(1, 7) for _ in range(3))}

    def make(self, p):
        import freud

        return freud.pmft.PMFTXYT(p["x"], p["y"], p["bins"])


@register
class PMFTXY(_PMFT):
    name, dims = "PMFTXY", 2
    arrays = {"query_orientations": ("query", _angles)}

    def draw(self, d, b, same):
        r = gen.rmax(d, b, lo=0.3)
        x, y = 0.7 * r, d.choice((0.7, 0.31)) * r
        return {"x": x, "y": y, "r": float(np.sqrt(x ** 2 + y ** 2)), "bins": tuple(d.int(1, 9) for _ in range(2))}

    def make(self, p):
        import freud

        return freud.pmft.PMFTXY(p["x"], p["y"], p["bins"])

    def compute(self, o, inp, sys):
        o.compute(sys, inp.arr["query_orientations"], **inp.kw())


@register
class PMFTXYZ(_PMFT):
    name, dims = "PMFTXYZ", 3
    arrays = {"query_orientations": ("query", _quats)}

    def draw(self, d, b, same):
        r = gen.rmax(d, b, lo=0.3)
        x, y, z = 0.55 * r, d.choice((0.55, 0.31)) * r, 0.53 * r
        return {"x": x, "y": y, "z": z, "r": float(np.sqrt(x ** 2 + y ** 2 + z ** 2)),
                "bins": tuple(d.int(1, 6) for _ in range(3)), "equiv": gen.equiv_quats(d)[1]}

    def make(self, p):
        import freud

        return freud.pmft.PMFTXYZ(p["x"], p["y"], p["z"], p["bins"])

    def compute(self, o, inp, sys):
        o.compute(sys, inp.arr["query_orientations"], equiv_orientations=inp.prm["equiv"], **inp.kw())


@register
class BondOrder(Analysis):
    name, dims, neighbors = "BondOrder", 3, "req"
    arrays = {"orientations": ("point", _quats), "query_orientations": ("query", _quats)}

    def draw(self, d, b, same):
        return {"bins": (d.int(2, 9), d.int(2, 9)), "mode": d.choice(("bod", "lbod", "obcd", "oocd"))}

    def make(self, p):
        import freud

        return freud.environment.BondOrder(p["bins"], mode=p["mode"])

    def compute(self, o, inp, sys):
        o.compute(sys, inp.arr["orientations"], query_orientations=inp.arr["query_orientations"], **inp.kw())

    def results(self, o, inp):
        return {"bin_counts": G(o.bin_counts), "bond_order": G(o.bond_order)}


@register
class AngularSeparationNeighbor(Analysis):
    name, neighbors = "AngularSeparationNeighbor", "req"
    arrays = {"orientations": ("point", _quats), "query_orientations": ("query", _quats)}

    def draw(self, d, b, same):
        return {"equiv": gen.equiv_quats(d)[1]}

    def make(self, p):
        import freud

        return freud.environment.AngularSeparationNeighbor()

    def compute(self, o, inp, sys):
        o.compute(sys, inp.arr["orientations"], query_orientations=inp.arr["query_orientations"],
                  equiv_orientations=inp.prm["equiv"], **inp.kw())

    def results(self, o, inp):
        nl = o.nlist
        r = nl_result(nl)
        b = r["bonds"][1]
        r["angles"] = ("bonds", (b[0], b[1], np.array(o.angles)), None)
        return r


@register
class LocalBondProjection(Analysis):
    name, neighbors = "LocalBondProjection", "req"
    arrays = {"orientations": ("point", _quats)}

    def draw(self, d, b, same):
        return {"equiv": gen.equiv_quats(d)[1],
                "proj": np.array([[d.float(-2, 2) for _ in range(3)] for _ in range(d.int(1, 3))], dtype=np.float32)}

    def make(self, p):
        import freud

        return freud.environment.LocalBondProjection()

    def compute(self, o, inp, sys):
        o.compute(sys, inp.arr["orientations"], inp.prm["proj"], equiv_orientations=inp.prm["equiv"], **inp.kw())

    def results(self, o, inp):
        r = nl_result(o.nlist)
        b = r["bonds"][1]
        r["projections"] = ("bonds", (b[0], b[1], np.array(o.projections)), None)
        r["normed_projections"] = ("bonds", (b[0], b[1], np.array(o.normed_projections)), None)
        return r


@register
class Hexatic(Analysis):
    name, dims, neighbors, query = "Hexatic", 2, "opt", False

    def draw(self, d, b, same):
        return {"k": d.choice((6, 4, 1, 3)), "weighted": d.bool()}

    def default_args(self, inp):
        return {"mode": "nearest", "num_neighbors": inp.prm["k"]}

    def make(self, p):
        import freud

        return freud.order.Hexatic(p["k"], p["weighted"])

    def compute(self, o, inp, sys):
        o.compute(sys, **inp.kw())

    def results(self, o, inp):
        return {"particle_order": ("query", np.array(o.particle_order), 1.0)}


@register
class Cluster(Analysis):
    name, neighbors, query, rotation = "Cluster", "req", False, True
    arrays = {"keys": ("point", lambda d, n: d.rng().integers(0, 50, n).astype(np.uint32))}

    def draw(self, d, b, same):
        return {"keyed": d.bool()}

    def make(self, p):
        import freud

        return freud.cluster.Cluster()

    def compute(self, o, inp, sys):
        o.compute(sys, keys=inp.arr["keys"] if inp.prm["keyed"] else None, **inp.kw())

    def results(self, o, inp):
        return {"num_clusters": G(o.num_clusters), "cluster_idx": ("label", np.array(o.cluster_idx), None),
                "sizes": G(sorted(len(k) for k in o.cluster_keys)),
                "keys": G(sorted(x for k in o.cluster_keys for x in np.asarray(k).tolist())
                          if inp.prm["keyed"] else 0)}


@register
class Interface(Analysis):
    name, neighbors, rotation = "Interface", "req", True

    def make(self, p):
        import freud

        return freud.interface.Interface()

    def compute(self, o, inp, sys):
        kw = inp.kw()
        kw.pop("query_points", None)
        o.compute(sys, inp.q, **kw)

    def results(self, o, inp):
        m, n = np.zeros(len(inp.q), dtype=int), np.zeros(len(inp.P), dtype=int)
        m[np.asarray(o.query_point_ids)] = 1
        n[np.asarray(o.point_ids)] = 1
        return {"point_count": G(o.point_count), "query_point_count": G(o.query_point_count),
                "query_point_ids": ("query", m, None), "point_ids": ("point", n, None)}


@register
class Debye(Analysis):
    name, rotation = "StaticStructureFactorDebye", True

    def draw(self, d, b, same):
        return {"k": d.int(2, 12), "kmax": d.float(0.5, 20)}

    def make(self, p):
        import freud

        return freud.diffraction.StaticStructureFactorDebye(p["k"], p["kmax"])

    def compute(self, o, inp, sys):
        kw = {}
        if inp.Q is not None:
            kw = {"query_points": inp.Q, "N_total": len(inp.P) + len(inp.Q)}
        o.compute(sys, **kw)

    def results(self, o, inp):
        return {"S_k": G(o.S_k, len(inp.P)), "min_valid_k": G(o.min_valid_k), "k_values": G(o.k_values)}


@register
class GaussianDensity(Analysis):
    name, query = "GaussianDensity", False
    arrays = {"values": ("point", lambda d, n: d.rng().normal(size=n).astype(np.float32))}

    def draw(self, d, b, same):
        w = tuple(d.int(2, 9) for _ in range(b.dims))
        return {"width": w, "r_max": float(np.float32(0.9 * gen.rmax(d, b, lo=0.3))), "sigma": 0.2 * b.rhalf,
                "valued": d.bool()}

    def make(self, p):
        import freud

        return freud.density.GaussianDensity(p["width"], p["r_max"], p["sigma"])

    def compute(self, o, inp, sys):
        o.compute(sys, inp.arr["values"] if inp.prm["valued"] else None)

    def results(self, o, inp):
        b, s = inp.b, inp.prm["sigma"]
        v = np.abs(inp.arr["values"]).max(initial=0) if inp.prm["valued"] else 1.0
        return {"density": ("grid", np.array(o.density), len(inp.P) * v / (2 * np.pi * s * s) ** (b.dims / 2))}


@register
class SphereVoxelization(Analysis):
    name, query = "SphereVoxelization", False

    def draw(self, d, b, same):
        return {"width": tuple(d.int(2, 9) for _ in range(b.dims)), "r_max": gen.rmax(d, b, lo=0.3)}

    def make(self, p):
        import freud

        return freud.density.SphereVoxelization(p["width"], p["r_max"])

    def compute(self, o, inp, sys):
        o.compute(sys)

    def results(self, o, inp):
        return {"voxels": ("grid", np.array(o.voxels), None)}


@register
class DiffractionPattern(Analysis):
    name, dims, query = "DiffractionPattern", 3, False
    cubic = True
    arrays = {"weights": ("point", _weights)}

    def draw(self, d, b, same):
        return {"grid": d.int(4, 24), "out": d.int(4, 24), "zoom": d.choice((1, 2)), "view": gen.unit_quat(d)}

    def make(self, p):
        import freud

        return freud.diffraction.DiffractionPattern(p["grid"], p["out"])

    def compute(self, o, inp, sys):
        o.compute(sys, view_orientation=inp.prm["view"], zoom=inp.prm["zoom"], weights=inp.arr["weights"])

    def results(self, o, inp):
        return {"diffraction": ("absolute", np.array(o.diffraction), None),
                "k_values": ("absolute", np.array(o.k_values), None),
                "k_vectors": ("absolute", np.array(o.k_vectors), None)}


@register
class Cubatic(Analysis):
    name, query = "Cubatic", False
    arrays = {"orientations": ("point", _quats)}
    # the annealing takes different paths after a rounding error
    chaotic = True

    def draw(self, d, b, same):
        return {"t": (5.0, d.choice((0.01, 1.0)), d.choice((0.9, 0.5))), "n": d.choice((1, 3, 10, 100, 100)),
                "seed": d.draw(10 ** 6)}

    def make(self, p):
        import freud

        return freud.order.Cubatic(*p["t"], n_replicates=p["n"], seed=p["seed"])

    def compute(self, o, inp, sys):
        o.compute(inp.arr["orientations"])

    def results(self, o, inp):
        return {"global_tensor": G(o.global_tensor, 2.0), "particle_order": ("point", np.array(o.particle_order), 10.0),
                "order": ("annealed", np.array(o.order), 10.0), "orientation": ("annealed", np.array(o.orientation), 10.0),
                "cubatic_tensor": ("annealed", np.array(o.cubatic_tensor), 10.0)}


@register
class RotationalAutocorrelation(Analysis):
    name, query = "RotationalAutocorrelation", False
    arrays = {"ref": ("point", _quats), "orientations": ("point", _quats)}

    def draw(self, d, b, same):
        return {"l": d.choice((2, 4, 6))}

    def make(self, p):
        import freud

        return freud.order.RotationalAutocorrelation(p["l"])

    def compute(self, o, inp, sys):
        o.compute(inp.arr["ref"], inp.arr["orientations"])

    def results(self, o, inp):
        return {"particle_order": ("point", np.array(o.particle_order), 1.0), "order": G(o.order, 1.0)}


@register
class AngularSeparationGlobal(Analysis):
    name, query = "AngularSeparationGlobal", False
    arrays = {"orientations": ("point", _quats)}

    def draw(self, d, b, same):
        return {"equiv": gen.equiv_quats(d)[1], "glob": gen.quats(d, d.int(1, 4))}

    def make(self, p):
        import freud

        return freud.environment.AngularSeparationGlobal()

    def compute(self, o, inp, sys):
        o.compute(inp.prm["glob"], inp.arr["orientations"], inp.prm["equiv"])

    def results(self, o, inp):
        return {"angles": ("point", np.array(o.angles), None)}


@register
class ClusterProperties(Analysis):
    name, query = "ClusterProperties", False
    arrays = {"masses": ("point", lambda d, n: d.rng().uniform(0.2, 3, n).astype(np.float32))}

    def draw(self, d, b, same):
        return {"massed": d.bool(), "k": d.int(1, 6)}

    def fill(self, d, inp):
        super().fill(d, inp)
        # compact clusters around drawn points, so that centers are well defined
        n = len(inp.P)
        g = d.rng()
        c = g.integers(0, n, inp.prm["k"])
        D = ref.pairs(inp.b, inp.P[c], inp.P)[3].reshape(n, -1)
        idx = D.argmin(axis=1)
        far = D.min(axis=1) > 0.4 * inp.b.rhalf
        idx[far] = inp.prm["k"] + np.arange(far.sum())
        _, idx = np.unique(idx, return_inverse=True)
        inp.arr["idx"] = idx.astype(np.uint32)

    def make(self, p):
        import freud

        return freud.cluster.ClusterProperties()

    def compute(self, o, inp, sys):
        o.compute(sys, inp.arr["idx"], inp.arr["masses"] if inp.prm["massed"] else None)

    def results(self, o, inp):
        s2 = inp.b.rhalf ** 2 * 3
        m = len(inp.P) * 3
        return {"sizes": G(o.sizes), "centers": ("position", np.array(o.centers), None),
                "centers_of_mass": ("position", np.array(o.centers_of_mass), None),
                "gyrations": G(o.gyrations, s2), "inertia_tensors": G(o.inertia_tensors, s2 * m),
                "radii_of_gyration": ("sqrt", np.array(o.radii_of_gyration), s2),
                "cluster_masses": G(o.cluster_masses)}


@register
class MSD(Analysis):
    name, query = "MSD", False

    def draw(self, d, b, same):
        return {"mode": d.choice(("window", "direct")), "n": d.int(1, 12)}

    def fill(self, d, inp):
        g = d.rng()
        inp.arr["trajectory"] = (inp.P[None] + g.normal(size=(inp.prm["n"],) + inp.P.shape)).astype(np.float32)
        b = inp.b
        inp.prm["box"] = None
        if d.bool():
            inp.prm["box"] = (b.Lx, b.Ly, b.Lz, b.xy, b.xz, b.yz, b.is2D)
            if d.bool(3):
                im = g.integers(-2, 3, inp.arr["trajectory"].shape)
                im[..., b.dims:] = 0
                inp.arr["images"] = im.astype(np.int32)

    def make(self, p):
        import freud

        if p["box"] is None:
            return freud.msd.MSD(mode=p["mode"])
        return freud.msd.MSD(freud.box.Box(*p["box"][:6], is2D=p["box"][6]), p["mode"])

    def compute(self, o, inp, sys):
        if "images" in inp.arr:
            o.compute(inp.arr["trajectory"], inp.arr["images"])
        else:
            o.compute(inp.arr["trajectory"])

    def results(self, o, inp):
        s = 30.0
        if "images" in inp.arr:
            s += 20 * (np.abs(inp.b.M).sum(axis=1) ** 2).sum()
        return {"msd": G(o.msd, s), "particle_msd": ("axis1", np.array(o.particle_msd), s)}


class _Query(Analysis):
    neighbors = "req"
    kind = ""
    nbkinds = ("ball", "nearest")

    def make(self, p):
        return None

    def compute(self, o, inp, sys):
        import freud

        if inp.nb[0] != "args":
            raise Discard("neighbor list")
        a = dict(inp.nb[1])
        if inp.Q is None:
            a.setdefault("exclude_ii", True)
        fb = inp.b.fb
        nq = {"aabb": freud.locality.AABBQuery, "link": freud.locality.LinkCell, "cell": freud.locality.CellQuery,
              "raw": lambda b, p: freud.locality.NeighborQuery.from_system((b, p))}[self.kind](fb, inp.P)
        self.nl = nq.query(inp.q, a).toNeighborList(sort_by_distance=inp.prm.get("sort", False))

    def draw(self, d, b, same):
        return {"sort": d.bool()}

    def results(self, o, inp):
        r = nl_result(self.nl)
        r["neighbor_counts"] = ("query", np.array(self.nl.neighbor_counts), None)
        r["segments"] = ("query", np.array(self.nl.segments) * 0 + np.array(self.nl.neighbor_counts), None)
        return r


for _k in ("aabb", "link", "cell", "raw"):
    register(type("Query_" + _k, (_Query,), {"name": "query_" + _k, "kind": _k,
                                                "nbkinds": ("ball",) if _k == "cell" else ("ball", "nearest")}))


class _Filter(Analysis):
    neighbors = "req"

    def compute(self, o, inp, sys):
        o.compute(sys, **inp.kw())

    def results(self, o, inp):
        a = nl_result(o.filtered_nlist, "filtered ")
        a.update(nl_result(o.unfiltered_nlist, "unfiltered "))
        return a


@register
class FilterSANN(_Filter):
    name = "FilterSANN"

    def make(self, p):
        import freud

        return freud.locality.FilterSANN(allow_incomplete_shell=True)


@register
class FilterRAD(_Filter):
    name = "FilterRAD"

    def draw(self, d, b, same):
        return {"early": d.bool()}

    def make(self, p):
        import freud

        return freud.locality.FilterRAD(allow_incomplete_shell=True, terminate_after_blocked=p["early"])


@register
class PeriodicBuffer(Analysis):
    name, query = "PeriodicBuffer", False

    def draw(self, d, b, same):
        k = d.bool()
        return {"images": k, "buffer": [d.int(0, 2) for _ in range(3)] if k else d.float(0.1, 0.9) * b.rhalf,
                "incl": d.bool()}

    def make(self, p):
        import freud

        return freud.locality.PeriodicBuffer()

    def compute(self, o, inp, sys):
        o.compute(sys, inp.prm["buffer"], images=inp.prm["images"], include_input_points=inp.prm["incl"])

    def results(self, o, inp):
        return {"buffer_points": ("absolute", np.array(o.buffer_points), None),
                "buffer_ids": ("absolute", np.array(o.buffer_ids), None)}


# -- problems ------------------------------------------------------------------------------------

class Dyadic:
    """Points on a grid of L/256 in a box whose side lengths are powers of two.

    Translations and wrapped separations are exact in single precision, and no separation is half of the box, so that
    transformed systems have bit-identical distances.
    """

    def __init__(self, d, dims=None, ortho=None, cubic=False):
        two = d.bool() if dims is None else dims == 2
        self.L = [d.choice((8.0, 4.0, 16.0)) for _ in range(3)]
        if cubic:
            self.L = [self.L[0]] * 3
        t = [0.0, 0.0, 0.0]
        if not (ortho or cubic) and d.bool():
            for i in range(1 if two else 3):
                t[i] = d.choice((0.0, 0.25, -0.5, 0.75, 1.0))
        self.tilt = t
        self.dims = 2 if two else 3
        self.b = gen.BoxSpec(self.L[0], self.L[1], 0.0 if two else self.L[2], *t, is2D=two, kind="dyadic")
        self.bits = np.random.default_rng(d.draw(1 << 20)).integers(0, 2, (3, 128))
        d.label("2D" if two else "3D", "ortho" if self.b.ortho else "tilted")

    def indices(self, d, n):
        if n > 10:
            g = d.rng()
            r = g.integers(0, 128, (n, 3))
        else:
            r = np.array([[d.draw(127) for _ in range(3)] for _ in range(n)]).reshape(n, 3)
        k = r + 128 * self.bits[np.arange(3)[None], r]
        k[:, self.dims:] = 128
        return k

    def positions(self, k, move=(0, 0, 0)):
        k = (np.asarray(k) + np.asarray(move)) % 256
        k[:, self.dims:] = 128
        P = ((k - 128) / 256.0) @ self.b.M.T
        if self.dims == 2:
            P[:, 2] = 0
        return np.ascontiguousarray(P.astype(np.float32))


def neighbors(d, inp, an, margin=True, kinds=("list", "ball", "nearest", "default")):
    """Draws a neighbor specification free of ties and of distances at the cutoff."""
    if an.neighbors is None:
        return None
    opts = [x for x in kinds if x in an.nbkinds and (x != "default" or an.default_args(inp) is not None)]
    if not opts:
        raise Discard("no neighbors of this kind")
    how = d.choice(opts)
    d.label("nb:" + how)
    b = inp.b
    I, J, V, D = ref.pairs(b, inp.P, inp.q)
    t = ref.tol(b)
    if how == "list":
        g = d.rng()
        keep = g.random(len(I)) < d.choice((0.3, 0.7, 1.0))
        if inp.Q is None:
            keep &= I != J
        W = g.uniform(0.1, 3, len(I)).astype(np.float32) if d.bool() else np.ones(len(I), dtype=np.float32)
        return ("list", I[keep], J[keep], W[keep])
    if how == "default":
        a = an.default_args(inp)
        if a["mode"] == "ball":
            check_cutoff(D, [a["r_max"]], t)
        else:
            check_ties(b, I, J, D, inp.Q is None, a["num_neighbors"], t)
        return None
    if how == "ball":
        a = gen.ball_args(d, b)
        check_cutoff(D, [a["r_max"], a.get("r_min", -1)], t)
        return ("args", a)
    k = d.int(1, 8)
    a = {"num_neighbors": k, "mode": "nearest"}
    if not b.ortho or d.bool():
        a["r_max"] = gen.rmax(d, b, lo=0.4)
        check_cutoff(D, [a["r_max"]], t)
    if d.bool(3):
        a["exclude_ii"] = d.bool()
    check_ties(b, I, J, D, a.get("exclude_ii", inp.Q is None), k, t)
    return ("args", a)


def check_cutoff(D, rs, t):
    for r in rs:
        if np.any(np.abs(D - r) < 2 * t):
            raise Discard("distance at the cutoff")


def check_ties(b, I, J, D, ex, k, t):
    D = np.where((I == J) & ex, np.inf, D)
    n = int(I.max(initial=-1)) + 1
    if not n:
        return
    D = np.sort(D.reshape(n, -1), axis=1)
    if not b.ortho and k:
        # pairs beyond half of the box may be other images
        pass
    if k < D.shape[1]:
        with np.errstate(all="ignore"):
            if np.any(D[:, k] - D[:, k - 1] < 4 * t):
                raise Discard("ties")


def dyadic(d, an, n=None, kinds=("list", "ball", "nearest", "default"), ortho=None, cubic=False):
    """(Dyadic, indices of the points, of the query points or None, Input)."""
    g = Dyadic(d, dims=an.dims, ortho=ortho, cubic=cubic or getattr(an, "cubic", False))
    k = g.indices(d, n or gen.npts(d, 2, 40))
    same = not an.query or d.bool()
    kq = None if same else g.indices(d, gen.npts(d, 1, 40))
    inp = Input(g.b, g.positions(k), None if same else g.positions(kq))
    inp.prm = an.draw(d, g.b, same)
    an.fill(d, inp)
    if an.name == "Hexatic" and not g.b.ortho:
        kinds = tuple(x for x in kinds if x != "default")
    inp.nb = neighbors(d, inp, an, kinds=kinds)
    d.note(analysis=an.name, **inp.desc())
    return g, k, kq, inp


def general(d, an, nmin=1, nmax=60, n=None, kinds=("list", "ball", "nearest", "default"), style=None):
    """An Input on a random system (n points, if given, for parallel loops of several chunks)."""
    cubic = getattr(an, "cubic", False)
    b = gen.box(d, dims=an.dims, kinds=("cubic",) if cubic else None, wide=False)
    if cubic:
        b = gen.BoxSpec(b.Lx, b.Lx, b.Lx)
    P = gen.points(d, b, n or gen.npts(d, nmin, nmax), style)
    same = not an.query or d.bool()
    Q = None if same else gen.points(d, b, n or gen.npts(d, nmin, nmax), style)
    inp = Input(b, P, Q)
    inp.prm = an.draw(d, b, same)
    an.fill(d, inp)
    if an.name == "Hexatic" and not b.ortho:
        kinds = tuple(x for x in kinds if x != "default")
    inp.nb = neighbors(d, inp, an, kinds=kinds)
    d.label("2D" if b.is2D else "3D", an.name)
    d.note(analysis=an.name, **inp.desc())
    return inp


# -- comparison ----------------------------------------------------------------------------------

def canonical_labels(x):
    """Labels renamed by first occurrence."""
    _, first, inv = np.unique(x, return_index=True, return_inverse=True)
    rank = np.empty(len(first), dtype=int)
    rank[np.argsort(first)] = np.arange(len(first))
    return rank[inv]


def compare(name, got, want, rel=2e-5, skip=(), vtol=0.0):
    """Results of the same input: integers equal, floating-point values up to rounding."""
    require(set(got) == set(want), f"{name}: results", got=sorted(got), want=sorted(want))
    for k in got:
        if k in skip:
            continue
        kind, a, scale = got[k]
        kind2, b, _ = want[k]
        if kind == "bonds":
            require(len(a[0]) == len(b[0]), f"{name}: {k}: number of bonds", got=len(a[0]), want=len(b[0]))
            oa, ob = np.lexsort((a[1], a[0])), np.lexsort((b[1], b[0]))
            equal(f"{name}: {k}: query point indices", a[0][oa], b[0][ob])
            equal(f"{name}: {k}: point indices", a[1][oa], b[1][ob])
            for i in range(2, len(a)):
                value(f"{name}: {k}[{i}]", a[i][oa], b[i][ob], scale, rel, vtol)
            continue
        if kind == "label":
            a, b = canonical_labels(a), canonical_labels(b)
        if kind == "sqrt":
            a, b = a ** 2, b ** 2
        value(f"{name}: {k}", a, b, scale, rel)


def value(name, a, b, scale, rel, vtol=0.0):
    a, b = np.asarray(a), np.asarray(b)
    require(a.dtype == b.dtype, f"{name}: dtype", got=a.dtype, want=b.dtype)
    if a.dtype.kind not in "fc":
        equal(name, a, b)
        return
    require(a.shape == b.shape, f"{name}: shape", got=a.shape, want=b.shape)
    fin = np.isfinite(b)
    equal(f"{name}: finite values", np.isfinite(a), fin)
    a, b = np.where(fin, a, 0), np.where(fin, b, 0)
    if scale is None:
        scale = np.abs(b).max() if b.size else 0
    close(name, a, b, rtol=rel, atol=rel / 4 * scale + vtol + 1e-30)


def identical(name, got, want, skip=()):
    """Bit-identical results (same input, same code path)."""
    for k in got:
        if k in skip:
            continue
        a, b = got[k][1], want[k][1]
        if not isinstance(a, tuple):
            a, b = (a,), (b,)
        for x, y in zip(a, b):
            x, y = np.asarray(x), np.asarray(y)
            require(x.shape == y.shape and x.dtype == y.dtype and
                    np.array_equal(x, y, equal_nan=x.dtype.kind in "fc"), f"{name}: {k} differs", got=x, want=y)
