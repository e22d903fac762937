"""C41: parameters outside of their ranges are rejected, parameters inside (with the ends) are accepted."""

import numpy as np

from .. import gen
from ..engine import Discard, Sub, raises, require
from . import common

PROP = "C41"
RULE = ("A table of all classes, functions and query arguments with generators of valid scalar parameters (values at the "
        "ends of the ranges included) and of invalid values of each parameter. rejected: exactly one parameter is "
        "invalid, so that the call has to raise; accepted: all are valid, so that it has to return. Query arguments go "
        "to queries of all search structures and to computes; dimensions: boxes of the wrong dimensionality, and of "
        "another one than in the previous compute. Non-trivial: every case.")

F = np.float32


def pos(d):
    return d.choice((1.0, 0.5, 3.0, 1e-3, 100.0)) if d.bool() else d.float(0.01, 20)


NEG = (-1.0, -1e-6, -100.0)
NONPOS = (0.0, 0, *NEG)
BINS0 = (0, -1)
BINS1 = (0, 1, -1)


def bins(d):
    return d.choice((1, 2, 10)) if d.bool() else d.int(1, 20)


def maybe(d, *pairs):
    """Keyword arguments that are given or left at their defaults."""
    return {k: v for k, v in pairs if d.bool()}


class Spec:
    """make(**valid) returns; make with the parameter p replaced by one of bad[p] raises."""

    def __init__(self, make, valid, bad):
        self.make, self.valid, self.bad = make, valid, bad


def table():
    import freud

    T = {}

    def add(fn):
        T[fn.__name__] = fn
        return fn

    @add
    def RDF(d):
        r = pos(d)
        v = {"bins": bins(d), "r_max": r, "r_min": r * d.choice((0, 0.5, 0.99)),
             "normalization_mode": d.choice(("exact", "finite_size"))}
        return Spec(freud.density.RDF, v, {"bins": BINS0, "r_max": NONPOS + (v["r_min"],), "r_min": NEG + (r, 1.5 * r),
                                           "normalization_mode": ("", "Exact", "finite", None)})

    @add
    def CorrelationFunction(d):
        return Spec(freud.density.CorrelationFunction, {"bins": bins(d), "r_max": pos(d)}, {"bins": BINS0, "r_max": NONPOS})

    @add
    def LocalDensity(d):
        return Spec(freud.density.LocalDensity, {"r_max": pos(d), "diameter": d.choice((0.0, pos(d)))},
                    {"r_max": NONPOS, "diameter": NEG})

    def width(d):
        return d.choice((bins(d), (bins(d), 3), [2, bins(d)], (2, bins(d), 4), [bins(d), 1, 1]))

    WIDTHS = ((), (3,), (2, 2, 2, 2), [5, 4, 3, 2, 1])

    @add
    def GaussianDensity(d):
        return Spec(freud.density.GaussianDensity, {"width": width(d), "r_max": pos(d), "sigma": pos(d)},
                    {"width": WIDTHS, "r_max": NONPOS})

    @add
    def SphereVoxelization(d):
        return Spec(freud.density.SphereVoxelization, {"width": width(d), "r_max": pos(d)},
                    {"width": WIDTHS, "r_max": NONPOS})

    @add
    def StaticStructureFactorDebye(d):
        k = pos(d)
        lo = k * d.choice((0, 0.5, 0.9))
        return Spec(freud.diffraction.StaticStructureFactorDebye, {"num_k_values": 1 + bins(d), "k_max": k, "k_min": lo},
                    {"num_k_values": BINS1, "k_max": NONPOS + (lo,), "k_min": NEG + (k, 2 * k)})

    @add
    def StaticStructureFactorDirect(d):
        k = pos(d)
        lo = k * d.choice((0, 0.5, 0.9))
        return Spec(freud.diffraction.StaticStructureFactorDirect, {"bins": bins(d), "k_max": k, "k_min": lo},
                    {"bins": BINS0, "k_max": NONPOS + (lo,), "k_min": NEG + (k, 2 * k)})

    @add
    def BondOrder(d):
        v = {"bins": d.choice((1 + bins(d), (2, 1 + bins(d)), [1 + bins(d), 2])), "mode": d.choice(("bod", "lbod", "obcd", "oocd"))}
        return Spec(freud.environment.BondOrder, v,
                    {"bins": (0, 1, (1, 5), (5, 1), (0, 5), (5, 0), [1, 1]), "mode": ("", "BOD", "bo", "none")})

    def lists(n):
        """Numbers of bins with one that is not positive."""
        out = [0, -1]
        for i in range(n):
            out.append(tuple(0 if j == i else 2 + j for j in range(n)))
        return tuple(out)

    @add
    def PMFTR12(d):
        return Spec(freud.pmft.PMFTR12, {"r_max": pos(d), "bins": d.choice((bins(d), (bins(d), 2, 3)))},
                    {"r_max": NEG, "bins": lists(3)})

    @add
    def PMFTXYT(d):
        return Spec(freud.pmft.PMFTXYT, {"x_max": pos(d), "y_max": pos(d), "bins": d.choice((bins(d), (1, 2, bins(d))))},
                    {"x_max": NEG, "y_max": NEG, "bins": lists(3)})

    @add
    def PMFTXY(d):
        return Spec(freud.pmft.PMFTXY, {"x_max": pos(d), "y_max": pos(d), "bins": d.choice((bins(d), (1, bins(d))))},
                    {"x_max": NEG, "y_max": NEG, "bins": lists(2)})

    @add
    def PMFTXYZ(d):
        return Spec(freud.pmft.PMFTXYZ, {"x_max": pos(d), "y_max": pos(d), "z_max": pos(d),
                                         "bins": d.choice((bins(d), (1, 2, bins(d))))},
                    {"x_max": NEG, "y_max": NEG, "z_max": NEG, "bins": lists(3)})

    @add
    def Cubatic(d):
        t = d.choice((1e-5, 0.01, 0.5))
        return Spec(freud.order.Cubatic, {"t_initial": t * d.choice((1.0, 1.5, 100.0)) , "t_final": t,
                                          "scale": d.choice((0.01, 0.5, 0.99)), "n_replicates": bins(d), "seed": d.int(0, 100)},
                    {"t_initial": (0.5 * t, 0.0, -1.0), "t_final": (1e-7, 0.0, -1.0, 1000.0), "scale": (0.0, 1.0, -0.5, 1.5, 2)})

    @add
    def RotationalAutocorrelation(d):
        return Spec(freud.order.RotationalAutocorrelation, {"l": d.choice((2, 4, 6, 8, 20))},
                    {"l": (1, 3, 5, 21, -2, -1)})

    @add
    def MSD(d):
        return Spec(freud.msd.MSD, {"box": d.choice((None, freud.Box.cube(3))), "mode": d.choice(("window", "direct"))},
                    {"mode": ("", "Window", "directs", None)})

    @add
    def Steinhardt(d):
        return Spec(freud.order.Steinhardt, {"l": d.choice((6, [4], [4, 6], (0, 2, 8)))}, {"l": ([], ())})

    @add
    def SteinhardtW(d):
        def make(l, n):
            b = gen.BoxSpec(10, 10, 10)
            o = freud.order.Steinhardt(l, wl=True)
            return o.compute((b.fb, np.eye(3, dtype=F)), {"num_neighbors": n})

        return Spec(make, {"l": d.int(0, 20), "n": d.int(1, 2)}, {"l": (21, 22, 40), "n": (0,)})

    @add
    def SolidLiquid(d):
        return Spec(freud.order.SolidLiquid, {"l": 6, "q_threshold": d.choice((0.0, 0.7, 1.0)), "solid_threshold": d.int(0, 8)},
                    {"q_threshold": NEG})

    @add
    def LocalDescriptors(d):
        def make(l_max, mode):
            o = freud.environment.LocalDescriptors(l_max, mode=mode)
            return o.compute((freud.Box.cube(10), np.eye(3, dtype=F)), orientations=np.eye(4)[:3], neighbors={"num_neighbors": 2})

        return Spec(make, {"l_max": d.int(0, 8), "mode": d.choice(("neighborhood", "global", "particle_local"))},
                    {"l_max": (-1,), "mode": ("", "local", "Global")})

    @add
    def from_box_lengths(d):
        dims = d.choice((2, 3, 6))
        v = [pos(d) for _ in range(min(dims, 3))] + [d.float(-1, 1) for _ in range(dims - 3)]
        return Spec(freud.Box.from_box, {"box": d.choice((list, tuple, np.array))(v)},
                    {"box": ([1.0], [1.0, 2, 3, 0], [1.0, 2, 3, 0, 0], [1.0] * 7, [], 5, None, "abc")})

    @add
    def from_box_dimensions(d):
        two = d.bool()
        b = freud.Box.square(3) if two else freud.Box.cube(3)
        form = d.choice((b, {"Lx": 3, "Ly": 3, "Lz": 0 if two else 3, "dimensions": 2 if two else 3}))
        return Spec(lambda dimensions: freud.Box.from_box(form, dimensions), {"dimensions": d.choice((None, 2 if two else 3))},
                    {"dimensions": (3 if two else 2,)})

    @add
    def Box3(d):
        v = {"Lx": pos(d), "Ly": pos(d), "Lz": pos(d), "xy": d.float(-2, 2), "xz": d.float(-2, 2), "yz": d.float(-2, 2),
             "is2D": False}
        return Spec(freud.Box, v, {"Lx": (0, 0.0), "Ly": (0, 0.0), "Lz": (0, 0.0)})

    @add
    def Box2(d):
        v = {"Lx": pos(d), "Ly": pos(d), "is2D": True}
        if d.bool():
            v["Lz"] = d.choice((0, 0.0))
        return Spec(freud.Box, v, {"Lx": (0, 0.0), "Ly": (0, 0.0)})

    @add
    def cube(d):
        return Spec(d.choice((freud.Box.cube, freud.Box.square)), {"L": pos(d)}, {"L": (None, 0)})

    @add
    def setL(d):
        def make(L):
            b = freud.Box(1, 2, 3, 0.1, 0.2, 0.3)
            b.L = L
            want = np.broadcast_to(L, 3)
            require(np.allclose(b.L, want, rtol=1e-6), "Box.L after an assignment", got=b.L, want=want)

        return Spec(make, {"L": d.choice((pos(d), [pos(d), 1.0, 2.0], (1.0, 2.0, pos(d)), np.array([1, pos(d), 3])))},
                    {"L": ([1.0, 2.0], [1.0, 2, 3, 4], [], (5.0,))})

    @add
    def multiply(d):
        b = gen.box(d).fb
        left = d.bool()
        return Spec(lambda s: (b * s) if left else (s * b), {"s": pos(d)}, {"s": NONPOS})

    @add
    def angles(d):
        pi = float(np.pi)
        # all angles of 60 to 90 degrees form a box
        v = {"L1": pos(d), "L2": pos(d), "L3": pos(d), "alpha": d.float(pi / 3, pi / 2), "beta": d.float(pi / 3, pi / 2),
             "gamma": d.float(pi / 3, pi / 2)}
        bad = {k: (0.0, -1.0, pi, 3.5, 2 * pi) for k in ("alpha", "beta", "gamma")}
        # larger than the sum of the others
        bad["alpha"] += (v["beta"] + v["gamma"] + 0.01,) if v["beta"] + v["gamma"] + 0.01 < pi else ()
        return Spec(freud.Box.from_box_lengths_and_angles, v, bad)

    @add
    def lattice_vector(d):
        two = d.bool()
        b = freud.Box.square(2) if two else freud.Box.cube(2)
        return Spec(b.get_box_vector, {"i": d.int(0, 1 if two else 2)}, {"i": (3, 4, 100)})

    @add
    def UnitCell(d):
        two = d.bool()
        u = freud.data.UnitCell.square() if two else freud.data.UnitCell.fcc()

        def make(n, scale=1, sigma_noise=0):
            return u.generate_system(n, scale=scale, sigma_noise=sigma_noise, seed=1)

        v = {"n": d.choice((d.int(1, 4), (d.int(1, 4), 2, 1) if not two else (2, d.int(1, 3), 1))), "scale": pos(d),
             "sigma_noise": d.choice((0, 0.1))}
        return Spec(make, v, {"n": (0, -1, (0, 1, 1), (1, 0, 1), (1, 1, -1), (1, 1, 0), 1.5, (1.5, 1, 1), (2, 2))[:8] +
                              (((1, 1, 2),) if two else ()), "scale": NONPOS})

    @add
    def PeriodicBuffer(d):
        two = d.bool()
        b = freud.Box.square(4) if two else freud.Box(4, 3, 5)
        P = np.zeros((2, 3))

        def make(buffer):
            return freud.locality.PeriodicBuffer().compute((b, P), buffer=buffer, images=False)

        return Spec(make, {"buffer": d.choice((0, 0.5, pos(d), (0, 1, 0), [1.5, 0, 2]))},
                    {"buffer": NEG + (np.nan, np.inf, (1, 2), (1, 2, 3, 4), (-1, 1, 1), (1, -1, 1), (np.nan, 1, 1), (1, np.inf, 1)) +
                     (() if two else ((1, 1, -1), (1, 1, np.nan)))})

    def nlist():
        P = np.array([[0, 0, 0], [1, 0, 0], [0, 2, 0]], dtype=F)
        nq = freud.AABBQuery(freud.Box.cube(10), P)
        return nq.query(P, {"r_max": 3, "exclude_ii": True}).toNeighborList()

    @add
    def filter_r(d):
        r = pos(d)
        return Spec(lambda **k: nlist().filter_r(**k), {"r_max": r, "r_min": r * d.choice((0, 0.5, 0.9))},
                    {"r_max": NONPOS, "r_min": NEG + (r, 2 * r)})

    @add
    def filter(d):  # noqa: A001
        def make(filt):
            return nlist().filter(filt)

        n = len(nlist())
        return Spec(make, {"filt": d.choice((np.ones(n, bool), np.zeros(n, bool), [True] * n))},
                    {"filt": (np.ones(n - 1, bool), np.ones(n + 1, bool), np.ones((n, 1), bool), np.zeros(0, bool))})

    @add
    def debye_total(d):
        P = np.eye(3, dtype=F)

        def make(kw):
            return freud.diffraction.StaticStructureFactorDebye(4, 2.0).compute((freud.Box.cube(10), P), **kw)

        return Spec(make, {"kw": d.choice(({}, {"query_points": P[:2], "N_total": 5}))},
                    {"kw": ({"query_points": P[:2]}, {"query_points": P})})

    @add
    def direct_total(d):
        P = np.eye(3, dtype=F)

        def make(kw):
            return freud.diffraction.StaticStructureFactorDirect(4, 2.0).compute((freud.Box.cube(10), P), **kw)

        return Spec(make, {"kw": d.choice(({}, {"query_points": P[:2], "N_total": 5}))},
                    {"kw": ({"query_points": P[:2]}, {"query_points": P})})

    @add
    def cubic(d):
        P = np.eye(3, dtype=F)
        return Spec(lambda box: freud.diffraction.DiffractionPattern(16).compute((box, P)), {"box": freud.Box.cube(pos(d) + 2)},
                    {"box": (freud.Box(4, 4, 5), freud.Box(4, 5, 4), freud.Box(5, 4, 4), freud.Box(4, 4, 4, 0.1),
                             freud.Box(4, 4, 4, 0, 0.1), freud.Box(4, 4, 4, 0, 0, 0.2))})

    @add
    def orientations(d):
        """Quaternions handed to a 2D PMFT rotate about z."""
        P = np.eye(3, dtype=F) * [1, 1, 0]
        c, s = np.cos(0.4), np.sin(0.4)

        def make(q):
            return freud.pmft.PMFTXY(2, 2, 4).compute((freud.Box.square(10), P), query_orientations=q)

        return Spec(make, {"q": d.choice(([0.1, 0.2, 0.3], [[c, 0, 0, s]] * 3, [[1, 0, 0, 0]] * 3))},
                    {"q": ([[c, s, 0, 0]] * 3, [[1, 0, 0, 0], [c, 0, s, 0], [1, 0, 0, 0]], [[c, 0, 0, s], [c, 0, 0, s], [0.5] * 4])})

    @add
    def Nematic(d):
        v = d.choice(([[1.0, 0, 0]] * 3, [[0.0, 1, 0], [0, 0, 1]]))
        return Spec(lambda o: freud.order.Nematic().compute(np.array(o)), {"o": v},
                    {"o": ([[1.0, 0, 0, 0]] * 3, [[1.0, 0]] * 3)})

    return T


_T = []


def spec(d):
    if not _T:
        _T.append(table())
    name = d.choice(sorted(_T[0]))
    d.label(name)
    return name, _T[0][name](d)


def rejected(d):
    name, s = spec(d)
    p = d.choice(sorted(s.bad))
    bad = d.choice(s.bad[p])
    kw = dict(s.valid)
    kw[p] = bad
    d.note(name=name, kwargs={k: repr(v) for k, v in kw.items()}, invalid=p)
    require(raises(lambda: s.make(**kw)), f"{name} accepts an invalid {p}", value=repr(bad),
            others={k: repr(v) for k, v in kw.items() if k != p})
    d.nontrivial()


def accepted(d):
    name, s = spec(d)
    kw = s.valid
    d.note(name=name, kwargs={k: repr(v) for k, v in kw.items()})
    try:
        s.make(**kw)
    except Exception as e:  # noqa: BLE001
        require(False, f"{name} rejects valid parameters", error=f"{type(e).__name__}: {e}", parameters={k: repr(v) for k, v in kw.items()})
    d.nontrivial()


# -- query arguments -------------------------------------------------------------------------------

def query_args(d):
    import freud

    b = gen.box(d, kinds=("cubic", "ortho"), wide=False)
    P = gen.points(d, b, d.int(2, 8))
    h = b.rhalf
    kind = d.choice(("aabb", "link", "raw", "cell"))
    w = float(0.9 * h)
    nq = {"aabb": lambda: freud.AABBQuery(b.fb, P), "link": lambda: freud.locality.LinkCell(b.fb, P, w),
          "raw": lambda: freud.locality._RawPoints(b.fb, P), "cell": lambda: freud.locality.CellQuery(b.fb, P)}[kind]()
    near = d.bool() and kind != "cell"
    r = float(d.float(0.1, 0.95) * h)
    if near:
        good = {"num_neighbors": d.int(1, 10)}
        if d.bool():
            good["mode"] = "nearest"
        if d.bool():
            good["r_max"] = r
        if d.bool(3):
            good["r_guess"] = float(d.float(0.1, 2) * h)
        if d.bool(3):
            good["scale"] = d.choice((1.01, 1.1, 2.0, 5.0))
        bad = [{"num_neighbors": 0}, {"num_neighbors": -1}, {"mode": "nearest", "num_neighbors": None}, {"r_max": 0.0}, {"r_max": -0.5},
               {"mode": "ball"}]
        if kind in ("aabb", "raw"):
            bad += [{"scale": 1.0}, {"scale": 0.5}, {"scale": 0.0}, {"scale": -2.0}, {"scale": float("nan")}, {"r_guess": float("nan")}]
    else:
        good = {"r_max": r}
        if d.bool():
            good["mode"] = "ball"
        if d.bool():
            good["r_min"] = float(r * d.choice((0.0, 0.3, 0.99)))
        bad = [{"r_max": 0.0}, {"r_max": -1.0}, {"r_max": None}, {"r_min": r}, {"r_min": 2 * r}, {"mode": "nearest"}, {"num_neighbors": 3, "mode": "ball"}]
        if kind in ("aabb", "raw"):
            bad += [{"r_max": h * 1.01}, {"r_max": h * 3}]
        if kind == "cell":
            bad += [{"num_neighbors": 2, "mode": "nearest"}]
    if d.bool():
        good["exclude_ii"] = d.bool()
    bad += [{"mode": "balls"}, {"mode": ""}, {"rmax": 1.0}, {"nn": 2}, {"exclude": True}, {"R_max": 1.0}]
    how = d.choice(("query", "compute"))
    if how == "compute":
        def call(args):
            return freud.environment.BondOrder(4).compute(nq, orientations=np.array([[1.0, 0, 0, 0]] * len(P)), neighbors=args) \
                if kind != "cell" else nq.query(P, args).toNeighborList()
    else:
        def call(args):
            return nq.query(P, args).toNeighborList() if d.bool() else list(nq.query(P, args))
    d.label(kind, how, "nearest" if near else "ball")
    if d.bool(3):
        d.note(box=b.desc(), kind=kind, args=good)
        try:
            call(good)
        except Exception as e:  # noqa: BLE001
            require(False, "valid query arguments are rejected", error=str(e), args=good, kind=kind)
    else:
        x = d.choice(bad)
        args = dict(good)
        for k, v in x.items():
            if v is None:
                args.pop(k, None)
            else:
                args[k] = v
        d.note(box=b.desc(), kind=kind, args=args, invalid=x)
        require(raises(lambda: call(args)), "invalid query arguments are accepted", kind=kind, args=args, invalid=x, how=how)
    d.nontrivial()


def structures(d):
    """Arguments of the search structures themselves."""
    import freud

    b = gen.box(d, wide=False)
    P = gen.points(d, b, d.int(1, 6))
    c = d.choice(("cell_width", "periodic", "z", "abstract", "neighbors"))
    d.note(box=b.desc(), points=P, case=c)
    d.label(c)
    if c == "cell_width":
        w = float(b.rhalf)
        big, ok = d.choice((1.001, 1.5, 10.0)) * w, d.choice((0.999, 0.7, 0.3)) * w
        require(raises(lambda: freud.locality.LinkCell(b.fb, P, big)), "LinkCell accepts a cell_width larger than half the box", width=big,
                plane=b.plane)
        freud.locality.LinkCell(b.fb, P, ok)
    elif c == "periodic":
        fb = b.make()
        fb.periodic = d.choice(((False, True, True), (True, False, True), (False, False, False)))
        args = {"r_max": 0.5 * b.rhalf}
        for name, nq in (("AABBQuery", lambda x: freud.AABBQuery(x, P)), ("CellQuery", lambda x: freud.locality.CellQuery(x, P)),
                         ("LinkCell", lambda x: freud.locality.LinkCell(x, P, 0.9 * b.rhalf))):
            def call(x):
                nq(x).query(P, args).toNeighborList()

            require(raises(lambda: call(fb)), f"a pair query of {name} accepts a box that is not periodic", periodic=list(fb.periodic))
            call(b.fb)
        # plain points are accepted in such boxes: then there are no images along the directions that are not periodic
        try:
            nl = freud.locality._RawPoints(fb, P).query(P, args).toNeighborList()
        except Exception:  # noqa: BLE001
            nl = None
        if nl is not None:
            I, J, D, V, _ = common.nl_arrays(nl)
            X = P.astype(float)
            n = np.rint((V - (X[J] - X[I])) @ b.Minv.T)
            for k in range(b.dims):
                require(fb.periodic[k] or not n[:, k].any(), "a bond to an image along a direction that is not periodic", axis=k)
    elif c == "z":
        if not b.is2D:
            raise Discard("3D")
        Q = P.copy()
        Q[d.draw(len(P) - 1), 2] = d.choice((0.5, -1e-3, 2.0))
        cls = d.choice((freud.AABBQuery, lambda x, p: freud.locality.LinkCell(x, p, float(0.5 * b.rhalf))))
        require(raises(lambda: cls(b.fb, Q)), "points with z coordinates are accepted in a 2D box", points=Q)
        cls(b.fb, P)
    elif c == "abstract":
        require(raises(freud.locality.NeighborQuery), "NeighborQuery can be made")
        require(raises(lambda: freud.locality.Filter()), "Filter can be made")
    else:
        bad = d.choice(([1], (1, 2), "ball", 5, [{"r_max": 1}], np.zeros(3), True))
        o = d.choice((lambda: freud.density.RDF(3, b.rhalf * 0.9), lambda: freud.cluster.Cluster(), lambda: freud.environment.BondOrder(4)))()
        kw = {"orientations": np.array([[1.0, 0, 0, 0]] * len(P))} if "Bond" in type(o).__name__ else {}
        require(raises(lambda: o.compute((b.fb, P), neighbors=bad, **kw)), "neighbors of a wrong type are accepted", neighbors=repr(bad))
        o.compute((b.fb, P), neighbors={"r_max": 0.5 * b.rhalf}, **kw)
    d.nontrivial()


# -- dimensions ------------------------------------------------------------------------------------

def dimensions(d):
    """Classes for 2D or 3D systems only, and objects that stay with the dimensionality of their first compute."""
    import freud

    b2, b3 = gen.box(d, dims=2, wide=False), gen.box(d, dims=3, wide=False)
    n = d.int(3, 8)
    P2, P3 = gen.points(d, b2, n), gen.points(d, b3, n)
    h = 0.9 * min(b2.rhalf, b3.rhalf)
    nb = {"r_max": float(h)}
    q = np.array([[1.0, 0, 0, 0]] * n)
    a = np.zeros(n)
    O = {
        "PMFTR12": (2, lambda: freud.pmft.PMFTR12(h, 3), lambda o, s: o.compute(s, a, neighbors=nb)),
        "PMFTXYT": (2, lambda: freud.pmft.PMFTXYT(h / 2, h / 2, 3), lambda o, s: o.compute(s, a, neighbors=nb)),
        "PMFTXY": (2, lambda: freud.pmft.PMFTXY(h / 2, h / 2, 3), lambda o, s: o.compute(s, a, neighbors=nb)),
        "PMFTXYZ": (3, lambda: freud.pmft.PMFTXYZ(h / 2, h / 2, h / 2, 3), lambda o, s: o.compute(s, q, neighbors=nb)),
        "Hexatic": (2, lambda: freud.order.Hexatic(), lambda o, s: o.compute(s, nb)),
        "Cluster": (0, lambda: freud.cluster.Cluster(), lambda o, s: o.compute(s, neighbors=nb)),
        "RDF": (0, lambda: freud.density.RDF(3, h), lambda o, s: o.compute(s)),
        "GaussianDensity": (1, lambda: freud.density.GaussianDensity(4, h, h), lambda o, s: o.compute(s)),
        "SphereVoxelization": (1, lambda: freud.density.SphereVoxelization(4, h), lambda o, s: o.compute(s)),
        "LocalDensity": (0, lambda: freud.density.LocalDensity(h / 2, h / 3), lambda o, s: o.compute(s)),
    }
    # 0: any, 1: any, but the same for the life of the object, 2 and 3: only these
    k = d.choice(sorted(O))
    dim, make, compute = O[k]
    d.label(k)
    d.note(name=k, box2=b2.desc(), box3=b3.desc())
    S = {2: (b2.fb, P2), 3: (b3.fb, P3)}
    o = make()
    if dim == 0:
        for x in d.choice(((2, 3), (3, 2), (2, 2, 3, 2))):
            compute(o, S[x])
    elif dim == 1:
        x = d.choice((2, 3))
        compute(o, S[x])
        require(raises(lambda: compute(o, S[5 - x])), f"{k} accepts a box of another dimensionality than before")
        compute(o, S[x])
        compute(make(), S[5 - x])
    else:
        if d.bool():
            compute(o, S[dim])
        require(raises(lambda: compute(o, S[5 - dim])), f"{k} accepts a {5 - dim}D box")
        compute(o, S[dim])
    d.nontrivial()


def equivalents(d):
    """Numbers of equivalent orientations of PMFTXYZ and AngularSeparation."""
    import freud

    n = d.int(2, 5)
    b = gen.BoxSpec(10, 10, 10)
    P = gen.points(d, b, n)
    q = gen.quats(d, n)
    E = [np.array([[1.0, 0, 0, 0]]), np.array([[1.0, 0, 0, 0], [0, 0, 0, 1]]), np.array([[1.0, 0, 0, 0], [0, 0, 0, 1], [0, 1, 0, 0]])]
    i, j = d.choice(((0, 1), (1, 0), (1, 2), (2, 0)))
    d.note(n=n, first=E[i], then=E[j])
    kind = d.choice(("accumulate", "reset", "empty"))
    d.label(kind)
    o = freud.pmft.PMFTXYZ(2, 2, 2, 3)
    # quaternions of bonds: (number of points, number of equivalents, 4)
    if kind == "accumulate":
        o.compute((b.fb, P), q, equiv_orientations=E[i])
        before = np.array(o.bin_counts)
        require(raises(lambda: o.compute((b.fb, P), q, equiv_orientations=E[j], reset=False)),
                "PMFTXYZ accumulates frames with other numbers of equivalent orientations")
        require((np.array(o.bin_counts) == before).all(), "a rejected frame changes the counts")
        o.compute((b.fb, P), q, equiv_orientations=E[i], reset=False)
        require((np.array(o.bin_counts) == 2 * before).all(), "counts of the frame after a rejected one")
    elif kind == "reset":
        o.compute((b.fb, P), q, equiv_orientations=E[i])
        o.compute((b.fb, P), q, equiv_orientations=E[j])
    else:
        s = freud.environment.AngularSeparationGlobal()
        require(raises(lambda: s.compute(np.array([[1.0, 0, 0, 0]]), q, np.zeros((0, 4)))),
                "AngularSeparationGlobal accepts no equivalent orientations")
    d.nontrivial()


SUBS = [Sub(rejected, 1500), Sub(accepted, 700), Sub(query_args, 800), Sub(structures, 300), Sub(dimensions, 300), Sub(equivalents, 60)]
