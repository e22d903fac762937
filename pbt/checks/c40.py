"""C40: constructor parameters, histogram axes and printed representations of analysis objects."""

import numpy as np

from .. import gen
from ..engine import Sub, close, equal, require
from . import analyses
from .common import rebuild

PROP = "C40"
RULE = ("Every analysis with random constructor parameters. rebuilt: the object evaluated from the printed form prints "
        "the same, before and after a compute, and computes bit for bit the same results on one thread. parameters: "
        "attributes return what was given (in single precision). axes: numbers, edges, centers and bounds of the "
        "bins of every histogram against float64, unchanged by computes. Non-trivial: parameters other than the "
        "defaults.")
# no printed form is documented for these
NAMES = sorted(k for k in analyses.ALL if not k.startswith(("Filter", "Query")) and not isinstance(analyses.ALL[k], analyses._Query))


def rebuilt(d):
    import freud

    an = analyses.ALL[d.choice(NAMES)]
    d.label(an.name)
    inp = analyses.general(d, an, nmax=8)
    with freud.parallel.NumThreads(1):
        o = an.make(inp.prm)
        before = repr(o)
        d.note(printed=before)
        p = rebuild(o)
        an.compute(o, inp, inp.system())
        a = an.results(o, inp)
        require(repr(o) == before, "computing changes the printed form", before=before, after=repr(o))
        an.compute(p, inp, inp.system())
        analyses.identical(f"{an.name}: the rebuilt object {before}", an.results(p, inp), a)
        q = rebuild(o)
        an.compute(q, inp, inp.system())
        analyses.identical(f"{an.name}: the object rebuilt after the compute", an.results(q, inp), a)
    d.nontrivial(bool(inp.prm))


def f32(x):
    return float(np.float32(x))


def check_axes(what, o, bins, lo, hi):
    """bins, lo, hi: sequences, one per axis."""
    E = [np.linspace(a, b, n + 1) for n, a, b in zip(bins, lo, hi)]
    one = not isinstance(o.nbins, (list, tuple)) and not isinstance(o.bin_edges, list)
    nb = [o.nbins] if one else list(o.nbins)
    be = [o.bin_edges] if one else list(o.bin_edges)
    bc = [o.bin_centers] if one else list(o.bin_centers)
    bd = [o.bounds] if one else list(o.bounds)
    equal(f"{what}: nbins", [int(x) for x in nb], list(bins))
    require(len(be) == len(bc) == len(bd) == len(bins), f"{what}: number of axes")
    for k, e in enumerate(E):
        s = max(abs(e[0]), abs(e[-1]))
        close(f"{what}: bin_edges {k}", be[k], e, rtol=0, atol=1e-6 * s)
        close(f"{what}: bin_centers {k}", bc[k], (e[1:] + e[:-1]) / 2, rtol=0, atol=1e-6 * s)
        close(f"{what}: bounds {k}", np.array(bd[k], dtype=float), e[[0, -1]], rtol=0, atol=1e-6 * s)


def histograms(d):
    """A histogram object, its axes and a way to compute it."""
    import freud

    k = d.choice(("RDF", "CorrelationFunction", "BondOrder", "PMFTR12", "PMFTXY", "PMFTXYT", "PMFTXYZ"))
    an = analyses.ALL[k]
    inp = analyses.general(d, an, nmax=6)
    p = inp.prm
    pi = np.pi
    if k == "RDF":
        ax = ([p["bins"]], [p["r_min"]], [p["r_max"]])
    elif k == "CorrelationFunction":
        ax = ([p["bins"]], [0], [p["r_max"]])
    elif k == "BondOrder":
        ax = (p["bins"], [0, 0], [2 * pi, pi])
    elif k == "PMFTR12":
        ax = (p["bins"], [0, 0, 0], [p["r"], 2 * pi, 2 * pi])
    elif k == "PMFTXY":
        ax = (p["bins"], [-p["x"], -p["y"]], [p["x"], p["y"]])
    elif k == "PMFTXYT":
        ax = (p["bins"], [-p["x"], -p["y"], 0], [p["x"], p["y"], 2 * pi])
    else:
        ax = (p["bins"], [-p["x"], -p["y"], -p["z"]], [p["x"], p["y"], p["z"]])
    return an, inp, ax


def axes(d):
    an, inp, ax = histograms(d)
    d.label(an.name)
    d.note(name=an.name, prm=inp.prm)
    o = an.make(inp.prm)
    check_axes(an.name, o, *ax)
    an.compute(o, inp, inp.system())
    check_axes(f"{an.name} after a compute", o, *ax)
    equal(f"{an.name}: shape of bin_counts", np.array(o.bin_counts).shape, tuple(int(x) for x in ax[0]))
    d.nontrivial(max(ax[0]) > 1)


def parameters(d):
    import freud

    x, y, z = (d.float(0.1, 20) for _ in range(3))
    i, j, k = (d.int(1, 12) for _ in range(3))
    t = d.bool()
    v = d.rng().normal(size=3)
    box = gen.box(d).fb
    den, pm, od, df = freud.density, freud.pmft, freud.order, freud.diffraction
    seed = d.int(0, 2 ** 31)
    mode = d.choice(("bod", "lbod", "obcd", "oocd"))
    msd = d.choice(("window", "direct"))
    norm = d.choice(("exact", "finite_size"))
    cases = [
        (lambda: den.RDF(i, x + y, y, norm), {"r_max": x + y, "mode": norm, "nbins": i}),
        (lambda: den.CorrelationFunction(i, x), {"r_max": x, "nbins": i}),
        (lambda: den.LocalDensity(x, y), {"r_max": x, "diameter": y}),
        (lambda: den.GaussianDensity((i, j, k), x, y), {"r_max": x, "sigma": y, "width": (i, j, k)}),
        (lambda: den.GaussianDensity(i, x, y), {"r_max": x, "sigma": y, "width": (i, i, i)}),
        (lambda: den.SphereVoxelization((i, j, k), x), {"r_max": x, "width": (i, j, k)}),
        (lambda: den.SphereVoxelization(j, x), {"r_max": x, "width": (j, j, j)}),
        (lambda: df.StaticStructureFactorDebye(i + 1, x + y, y), {"num_k_values": i + 1, "k_max": x + y, "k_min": y}),
        (lambda: df.DiffractionPattern(i + 10, j + 10), {"grid_size": i + 10, "output_size": j + 10}),
        (lambda: df.DiffractionPattern(i + 10), {"grid_size": i + 10, "output_size": i + 10}),
        (lambda: freud.environment.BondOrder((i + 1, j + 1), mode), {"nbins": (i + 1, j + 1), "mode": mode}),
        (lambda: freud.environment.BondOrder(i + 1, mode=mode), {"nbins": (i + 1, i + 1), "mode": mode}),
        (lambda: pm.PMFTR12(x, (i, j, k)), {"r_max": x, "nbins": (i, j, k)}),
        (lambda: pm.PMFTR12(x, i), {"r_max": x, "nbins": (i, i, i)}),
        (lambda: pm.PMFTXY(x, y, (i, j)), {"r_max": np.hypot(x, y), "nbins": (i, j)}),
        (lambda: pm.PMFTXY(x, y, i), {"r_max": np.hypot(x, y), "nbins": (i, i)}),
        (lambda: pm.PMFTXYT(x, y, (i, j, k)), {"r_max": np.hypot(x, y), "nbins": (i, j, k)}),
        (lambda: pm.PMFTXYT(x, y, k), {"r_max": np.hypot(x, y), "nbins": (k, k, k)}),
        (lambda: pm.PMFTXYZ(x, y, z, (i, j, k), list(v)), {"r_max": np.sqrt(x * x + y * y + z * z), "nbins": (i, j, k),
                                                           "shiftvec": v}),
        (lambda: pm.PMFTXYZ(x, y, z, j), {"r_max": np.sqrt(x * x + y * y + z * z), "nbins": (j, j, j), "shiftvec": np.zeros(3)}),
        (lambda: od.Cubatic(x + y, y, 0.05 * i, j, seed), {"t_initial": x + y, "t_final": y, "scale": 0.05 * i,
                                                           "n_replicates": j, "seed": seed}),
        (lambda: od.Hexatic(i, t), {"k": i, "weighted": t}),
        (lambda: od.RotationalAutocorrelation(2 * i), {"l": 2 * i}),
        (lambda: freud.msd.MSD(box, msd), {"box": box, "mode": msd}),
        (lambda: freud.msd.MSD(mode=msd), {"mode": msd}),
        (lambda: freud.locality.LinkCell(box, np.zeros((1, 3)), 0.02 * min(l for l in box.L if l > 0)),
         {"box": box, "points": np.zeros((1, 3))}),
        (lambda: freud.locality.AABBQuery(box, (np.zeros((i, 3)))), {"box": box, "points": np.zeros((i, 3))}),
    ]
    c = d.draw(len(cases) - 1)
    make, want = cases[c]
    try:
        o = make()
    except ValueError as e:
        # half of the boxes' lattices are too tilted for the cell width
        require("LinkCell" in str(c) or c == len(cases) - 2, "valid parameters are rejected", error=str(e), case=c)
        return
    d.note(case=c, type=type(o).__name__, want=want)
    for name, w in want.items():
        g = getattr(o, name)
        what = f"{type(o).__name__}.{name}"
        if isinstance(w, (bool, str)) or w is None or isinstance(w, freud.Box):
            require(g == w, what, got=g, want=w)
        elif isinstance(w, int):
            require(int(g) == w if not isinstance(g, (tuple, list)) else tuple(g) == (w,), what, got=g, want=w)
        elif isinstance(w, tuple):
            require(tuple(int(q) for q in g) == w, what, got=g, want=w)
        else:
            close(what, np.asarray(g, dtype=float), w, rtol=2e-6, atol=1e-6)
    d.nontrivial()


SUBS = [Sub(rebuilt, 1500), Sub(axes, 1500), Sub(parameters, 3000)]
