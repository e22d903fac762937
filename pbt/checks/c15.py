"""C15: accumulation over frames, resets and reads."""

import numpy as np

from .. import gen, ref
from ..engine import Sub, close, equal, fail, require
from . import analyses, common
from .c12 import draw_values

PROP = "C15"
RULE = ("Histories of 1 to 8 compute calls with random reset flags on RDF, CorrelationFunction, the four PMFTs, "
        "BondOrder, StaticStructureFactorDebye and DiffractionPattern, over different frames (positions, neighbors, "
        "and, where the normalisation is per frame, boxes and particle numbers), with random subsets of the results "
        "read in between and kept. Oracle: a fresh object fed the frames since the last reset in a permuted order "
        "without reads, the documented combination of single-frame results, and snapshots of the arrays handed out "
        "before a reset. Non-trivial: at least two frames since the last reset with nonzero results.")


class Case:
    """make() gives a fresh object, frame(d) a function (object, reset) -> compute."""

    exact = ()
    read = ()
    mean = ()  # observables which are the mean of the single-frame values
    total = ()  # observables which are the sum of the single-frame values

    def get(self, o, name):
        return np.asarray(getattr(o, name))

    def finish(self, o, singles):
        """Further combinations of single-frame results."""


class _Fixed(Case):
    """Frames share the box and the particle numbers."""

    dims = None

    def __init__(self, d, dims=None):
        self.b = gen.box(d, dims=dims or self.dims)
        self.n = d.int(2, 20)
        self.same = d.bool()
        self.m = self.n if self.same else d.int(2, 20)
        self.r = gen.rmax(d, self.b, lo=0.3)
        self.setup(d)

    def setup(self, d):
        pass

    def system(self, d):
        P = gen.points(d, self.b, self.n)
        Q = P if self.same else gen.points(d, self.b, self.m)
        return gen.System(self.b, P, Q, self.same)

    def frame(self, d):
        s = self.system(d)
        B = common.bonds(d, s, default_rmax=self.r)
        return self.call(d, s, B)


class _RDF(_Fixed):
    exact, read = ("bin_counts",), ("rdf", "n_r", "bin_counts", "bin_edges", "bin_centers")
    total, mean = ("bin_counts",), ("rdf", "n_r")

    def setup(self, d):
        self.bins = d.int(1, 30)
        self.rmin = 0.0 if d.bool() else float(np.float32(d.float(0, 0.8) * self.r))
        self.mode = d.choice(("exact", "finite_size"))

    def make(self):
        import freud

        return freud.density.RDF(self.bins, self.r, self.rmin, normalization_mode=self.mode)

    def call(self, d, s, B):
        return lambda o, reset: o.compute(B.sys, reset=reset, **B.kw())


class _CF(Case):
    exact, read = ("bin_counts",), ("correlation", "bin_counts", "bin_edges")
    total = ("bin_counts",)

    def __init__(self, d):
        self.r = 1.0
        self.bins = d.int(1, 20)
        self.b0 = gen.box(d, wide=False, Lmin=4)
        self.r = gen.rmax(d, self.b0, lo=0.4)

    def make(self):
        import freud

        return freud.density.CorrelationFunction(self.bins, self.r)

    def get(self, o, name):
        x = np.asarray(getattr(o, name))
        return x.astype(complex) if name == "correlation" else x

    def frame(self, d):
        while True:
            b = self.b0 if d.bool() else gen.box(d, wide=False, Lmin=4)
            if b.rhalf > self.r:
                break
            b = self.b0
            break
        P = gen.points(d, b, d.int(1, 20))
        same = d.bool()
        Q = P if same else gen.points(d, b, d.int(1, 20))
        s = gen.System(b, P, Q, same)
        B = common.bonds(d, s, default_rmax=self.r)
        v = draw_values(d, len(P)) / 1.0
        v = v / max(1e-300, np.abs(v).max(initial=1e-300))
        kw = B.kw()
        if not same or len(Q) != len(P):
            kw["query_values"] = np.exp(1j * np.arange(len(Q)))
        return lambda o, reset: o.compute(B.sys, v, reset=reset, **kw)

    def finish(self, o, singles):
        n = sum(np.asarray(x["bin_counts"], dtype=float) for x in singles)
        s = sum(x["correlation"] * np.asarray(x["bin_counts"], dtype=float) for x in singles)
        close("correlation against the pair average of single frames", self.get(o, "correlation"),
              np.where(n > 0, s / np.maximum(n, 1), 0), rtol=1e-8, atol=1e-8)


class _PMFT(_Fixed):
    exact, read = ("bin_counts",), ("bin_counts", "pmft", "_pcf")
    total, mean = ("bin_counts",), ("_pcf",)

    def cells(self, d, k):
        c = tuple(d.int(1, 8) for _ in range(k))
        return c[0] if (d.bool(4) and len(set(c)) == 1) else c


class _R12(_PMFT):
    dims = 2

    def setup(self, d):
        self.bins = self.cells(d, 3)

    def make(self):
        import freud

        return freud.pmft.PMFTR12(self.r, self.bins)

    def call(self, d, s, B):
        o1, o2 = gen.angles(d, self.n), gen.angles(d, self.m)
        kw = B.kw()
        if not self.same or d.bool():
            kw["query_orientations"] = o2
        return lambda o, reset: o.compute(B.sys, o1, reset=reset, **kw)


class _XY(_PMFT):
    dims = 2

    def setup(self, d):
        self.bins = self.cells(d, 2)
        self.xy = (0.7 * self.r, d.choice((0.7, 0.3)) * self.r)
        self.r = float(np.sqrt(self.xy[0] ** 2 + self.xy[1] ** 2))

    def make(self):
        import freud

        return freud.pmft.PMFTXY(*self.xy, self.bins)

    def call(self, d, s, B):
        q = gen.angles(d, self.m)
        return lambda o, reset: o.compute(B.sys, q, reset=reset, **B.kw())


class _XYT(_PMFT):
    dims = 2

    def setup(self, d):
        self.bins = self.cells(d, 3)
        self.xy = (0.7 * self.r, d.choice((0.7, 0.3)) * self.r)
        self.r = float(np.sqrt(self.xy[0] ** 2 + self.xy[1] ** 2))

    def make(self):
        import freud

        return freud.pmft.PMFTXYT(*self.xy, self.bins)

    def call(self, d, s, B):
        o1, o2 = gen.angles(d, self.n), gen.angles(d, self.m)
        kw = B.kw()
        if not self.same or d.bool():
            kw["query_orientations"] = o2
        return lambda o, reset: o.compute(B.sys, o1, reset=reset, **kw)


class _XYZ(_PMFT):
    dims = 3

    def setup(self, d):
        self.bins = self.cells(d, 3)
        self.xyz = (0.55 * self.r, d.choice((0.55, 0.3)) * self.r, 0.55 * self.r)
        self.r = float(np.sqrt(sum(x * x for x in self.xyz)))
        self.equiv = None if d.bool() else gen.equiv_quats(d)[1]

    def make(self):
        import freud

        return freud.pmft.PMFTXYZ(*self.xyz, self.bins)

    def call(self, d, s, B):
        q = gen.quats(d, self.m)
        kw = B.kw()
        if self.equiv is not None:
            kw["equiv_orientations"] = self.equiv
        return lambda o, reset: o.compute(B.sys, q, reset=reset, **kw)


class _BO(Case):
    exact, read = ("bin_counts",), ("bond_order", "bin_counts")
    total, mean = ("bin_counts",), ("bond_order",)

    def __init__(self, d):
        self.bins = (d.int(2, 12), d.int(2, 12))
        self.mode = d.choice(("bod", "lbod", "obcd", "oocd"))

    def make(self):
        import freud

        return freud.environment.BondOrder(self.bins, mode=self.mode)

    def frame(self, d):
        s = gen.system(d, dims=3, nmin=2, nmax=15)
        B = common.bonds(d, s)
        q1, q2 = gen.quats(d, len(s.P)), gen.quats(d, len(s.Q))
        kw = B.kw()
        if not s.same or d.bool():
            kw["query_orientations"] = q2
        return lambda o, reset: o.compute(B.sys, q1, reset=reset, **kw)


class _SSF(Case):
    exact, read = ("min_valid_k",), ("S_k", "min_valid_k", "k_values")
    mean = ("S_k",)

    def __init__(self, d):
        self.k = d.int(2, 20)
        self.kmax = d.float(0.5, 20)
        self.kmin = d.choice((0.0, 0.2)) * self.kmax

    def make(self):
        import freud

        return freud.diffraction.StaticStructureFactorDebye(self.k, self.kmax, self.kmin)

    def frame(self, d):
        s = gen.system(d, nmin=1, nmax=15, wide=False)
        kw = {}
        if not s.same:
            kw = {"query_points": s.Q, "N_total": len(s.P) + len(s.Q)}
        a = (s.b.fb, s.P)
        return lambda o, reset: o.compute(a, reset=reset, **kw)

    def finish(self, o, singles):
        require(float(o.min_valid_k) == min(float(x["min_valid_k"]) for x in singles), "min_valid_k")


class _DP(Case):
    read = ("diffraction", "k_values", "k_vectors", "N_points")
    mean = ("diffraction",)

    def __init__(self, d):
        self.grid = d.int(3, 24)
        self.out = None if d.bool() else d.int(3, 24)
        self.L = round(d.float(2, 12), 3)
        self.zoom, self.width = d.choice((1, 2, 4)), d.choice((0, 1, 0.5))

    def make(self):
        import freud

        return freud.diffraction.DiffractionPattern(self.grid, self.out)

    def frame(self, d):
        b = gen.BoxSpec(self.L, self.L, self.L)
        P = gen.points(d, b, d.int(1, 20))
        v = gen.unit_quat(d)
        a = (b.fb, P)
        z = self.zoom
        return lambda o, reset: o.compute(a, view_orientation=v, zoom=z, peak_width=self.width, reset=reset)

    def last(self, o, single):
        """The wavevectors are those of the last frame."""
        for k in ("k_values", "k_vectors", "N_points"):
            close(k, np.asarray(getattr(o, k)), single[k], rtol=1e-9, atol=1e-12)


CASES = {"RDF": _RDF, "CF": _CF, "R12": _R12, "XY": _XY, "XYT": _XYT, "XYZ": _XYZ, "BondOrder": _BO, "SSF": _SSF,
         "Diffraction": _DP}
SKIP = {"k_values", "k_vectors", "N_points"}


def observe(c, o):
    return {k: np.array(c.get(o, k)) for k in c.read}


def compare(c, name, got, want, skip=()):
    for k in c.read:
        if k in skip:
            continue
        if k in c.exact:
            equal(f"{name}: {k}", got[k], want[k])
        else:
            w = np.asarray(want[k])
            fin = np.isfinite(w)
            equal(f"{name}: finite values of {k}", np.isfinite(got[k]), fin)
            g, w = np.where(fin, got[k], 0), np.where(fin, w, 0)
            close(f"{name}: {k}", g, w, rtol=2e-5, atol=2e-6 * (np.abs(w).max() if w.size else 0) + 1e-12)


def history(d, name):
    cls = CASES[name]
    c = cls(d)
    nf = d.int(1, 8)
    o = c.make()
    since = []
    held = []  # (name, array, frozen copy or None)
    log = []
    for _ in range(nf):
        f = c.frame(d)
        reset = d.bool(3) if d.bool() else (d.bool() or not log)
        if reset:
            held = [(k, a, np.array(a) if z is None else z) for k, a, z in held]
            since = []
        f(o, reset)
        since.append(f)
        log.append("R" if reset else "a")
        for k in c.read:
            if d.bool(4):
                a = np.asarray(getattr(o, k))
                log.append(k)
                if a.ndim:
                    held.append((k, a, None))
        for k, a, z in held:
            if z is not None:
                ok = np.array_equal(a, z, equal_nan=a.dtype.kind in "fc")
                require(ok, f"{name}: {k} obtained before a reset changed", history=log)
    d.note(analysis=name, history=log, frames=len(since))
    d.label(name, f"frames:{min(len(since), 4)}")
    got = observe(c, o)
    # a second read gives the same
    compare(c, "repeated read", observe(c, o), got)
    for k, a, z in held:
        if z is not None:
            require(np.array_equal(a, z, equal_nan=a.dtype.kind in "fc"),
                    f"{name}: {k} obtained before a reset changed when the results were read", history=log)
    order = d.perm(len(since))
    x = c.make()
    for i, j in enumerate(order):
        since[j](x, i == 0 and d.bool())
    compare(c, f"{name} {log}: fresh object fed frames {order.tolist()}", got, observe(c, x), SKIP)
    singles = []
    for f in since:
        x = c.make()
        f(x, True)
        singles.append(observe(c, x))
    n = len(since)
    for k in c.total:
        equal(f"{name} {log}: {k} is not the sum over frames", got[k], sum(s[k] for s in singles))
    for k in c.mean:
        w = sum(s[k].astype(float) for s in singles) / n
        close(f"{name} {log}: {k} is not the mean over frames", got[k], w, rtol=2e-5,
              atol=2e-6 * np.abs(w).max() + 1e-12)
    c.finish(o, singles)
    if hasattr(c, "last"):
        c.last(o, singles[-1])
    key = (c.total + c.mean)[0]
    d.nontrivial(n >= 2 and sum(np.any(s[key] != 0) for s in singles) >= 2)
    # compute with reset on the used object equals a fresh object
    f = since[d.draw(n - 1)]
    f(o, True)
    x = c.make()
    f(x, True)
    compare(c, f"{name}: compute with reset after {log}", observe(c, o), observe(c, x))


def make(name):
    def fn(d):
        history(d, name)

    fn.__name__ = name
    return fn


REUSED = sorted(n for n in analyses.ALL if not n.startswith("query"))


def other(d, an, inp):
    """Another input for the parameters of inp: other or the same numbers of points, box, neighbors."""
    b = inp.b
    f = d.choice((1.0, 1.0, 1.25, 2.0))
    if f != 1:
        b = gen.BoxSpec(b.Lx * f, b.Ly * f, b.Lz * f, b.xy, b.xz, b.yz, is2D=b.is2D, periodic=b.periodic)

    def number(n):
        return n if d.bool() else d.choice((1, n + 1, 2 * n + 3, max(1, n - 1), max(1, n // 2)))

    P = inp.P if f == 1 and d.bool(3) else gen.points(d, b, number(len(inp.P)))
    if not an.query:
        Q = None
    elif inp.Q is None:
        Q = None if d.bool() else gen.points(d, b, number(len(inp.P)))
    else:
        Q = gen.points(d, b, number(len(inp.Q))) if d.bool() else None
    x = analyses.Input(b, P, Q, prm=inp.prm)
    if an.name == "MSD":
        x.prm = dict(inp.prm, n=d.choice((inp.prm["n"], d.int(1, 12))))
    an.fill(d, x)
    x.nb = analyses.neighbors(d, x, an, kinds=("list", "ball", "nearest")) if an.neighbors else None
    return x


def attributes(o):
    """Every array (and array of a neighbor list) the object offers."""
    import freud

    r = {}
    for k in dir(type(o)):
        if k.startswith("_") or not isinstance(getattr(type(o), k, None), property):
            continue
        try:
            a = getattr(o, k)
        except Exception:  # e.g. results not enabled
            continue
        if isinstance(a, freud.locality.NeighborList):
            for j in ("query_point_indices", "point_indices", "distances", "weights", "vectors", "neighbor_counts"):
                r[f"{k}.{j}"] = np.asarray(getattr(a, j))
        elif isinstance(a, np.ndarray):
            r[k] = a
    return r


def reuse(d):
    """Any analysis: computing on a used object equals a fresh one, and leaves results handed out before alone."""
    import freud

    an = analyses.ALL[d.choice(REUSED)]
    inp = analyses.general(d, an, nmax=40)
    with freud.parallel.NumThreads(1 if d.bool() else 4):
        want = an.run(inp)
        o = an.make(inp.prm)
        held = []
        sizes = []
        for _ in range(d.int(1, 3)):
            x = other(d, an, inp)
            sizes.append((len(x.P), len(x.q)))
            r = an.run(x, o)
            held += [(k, a, np.array(a)) for k, a in attributes(o).items()]
        got = an.run(inp, o)
    d.note(sizes=sizes, size=(len(inp.P), len(inp.q)))
    d.nontrivial(any(np.any(np.isfinite(a) & (a != 0)) for k, v, s in r.values()
                     for a in (v if isinstance(v, tuple) else (v,)) for a in [np.asarray(a)]))
    analyses.compare(f"{an.name}: object used before", got, want)
    for k, a, z in held:
        require(np.array_equal(a, z, equal_nan=a.dtype.kind in "fc"), f"{an.name}: {k} handed out before changed")


SUBS = [Sub(reuse, 1500)] + [Sub(make(n), q) for n, q in (("RDF", 700), ("CF", 700), ("R12", 500), ("XY", 500), ("XYT", 500), ("XYZ", 400),
                                     ("BondOrder", 600), ("SSF", 600), ("Diffraction", 500))]
