"""C11: radial distribution function."""

import numpy as np

from .. import gen, ref
from ..engine import Sub, close, equal, raises, require, same_shape
from . import common

PROP = "C11"
RULE = ("2D and 3D systems of 1 to 60 points, 1 to 400 bins, r_min and r_max with and without default neighbors, query "
        "arguments or explicit lists that reach below r_min or beyond r_max, both normalisation modes. Oracle: float64 "
        "histogram of the pair distances (distances within rounding of an edge may fall on either side), shell volumes "
        "and running sums from the definition applied to the reported counts. Non-trivial: at least three pairs in at "
        "least two bins.")


def vol(b, lo, hi):
    if b.is2D:
        return np.pi * (hi ** 2 - lo ** 2)
    return 4 / 3 * np.pi * (hi ** 3 - lo ** 3)


def check_edges(name, obj, bins, lo, hi):
    e = same_shape(f"{name}: bin_edges", obj.bin_edges, (bins + 1,)).astype(float)
    c = same_shape(f"{name}: bin_centers", obj.bin_centers, (bins,)).astype(float)
    w = (hi - lo) / bins
    close(f"{name}: bin_edges", e, lo + np.arange(bins + 1) * w, rtol=1e-5, atol=1e-6 * hi)
    close(f"{name}: bin_centers", c, lo + (np.arange(bins) + 0.5) * w, rtol=1e-5, atol=1e-6 * hi)
    close(f"{name}: bounds", np.array(obj.bounds), np.array([lo, hi]), rtol=1e-6, atol=0)
    require(obj.nbins == bins, f"{name}: nbins", got=obj.nbins)
    return e


def params(d, s):
    b = s.b
    bins = d.choice((1, 2, 3, 10, 50, 400)) if d.bool() else d.int(1, 60)
    r_max = gen.rmax(d, b, lo=0.2)
    if d.bool(5):
        r_max = float(np.float32(r_max * d.choice((2.0, 4.0))))  # beyond the range of ball queries: lists only
    r_min = 0.0
    if d.bool(3):
        r_min = float(np.float32(d.float(0.05, 0.9) * r_max))
    return bins, r_max, r_min


def rdf(d):
    import freud

    s = gen.system(d, nmax=60)
    b = s.b
    bins, r_max, r_min = params(d, s)
    mode = d.choice(("exact", "finite_size"))
    ok = r_max < 0.99 * b.rhalf
    B = common.bonds(d, s, default_rmax=r_max if ok else None)
    d.note(bins=bins, r_max=r_max, r_min=r_min, mode=mode, neighbors=B.neighbors if B.how != "list" else "list")
    d.label(mode)
    form = d.draw(2)
    if form == 0:
        r = freud.density.RDF(bins, r_max, r_min, mode)
    elif form == 1:
        r = freud.density.RDF(bins=bins, r_max=r_max, r_min=r_min, normalization_mode=mode)
    else:
        r = freud.density.RDF(bins, r_max, r_min)
        r.mode = mode
    require(r.mode == mode, "normalisation mode")
    e = check_edges("RDF", r, bins, r_min, r_max)
    def compute(**kw):
        require(r.compute(B.sys, **B.kw(), **kw) is r, "compute does not return the object")

    frames = common.accumulate(d, compute, lambda: r.compute((b.fb, s.P[:1]), s.Q, dict(r_max=0.4 * b.rhalf)))
    check_edges("RDF after compute", r, bins, r_min, r_max)
    order = d.perm(3)
    got = {}
    for k in order:
        name = ("rdf", "n_r", "bin_counts")[k]
        got[name] = np.asarray(getattr(r, name)).astype(float)
    counts = same_shape("bin_counts", got["bin_counts"], (bins,))
    g = same_shape("rdf", got["rdf"], (bins,))
    n_r = same_shape("n_r", got["n_r"], (bins,))
    h = ref.HistRef([e], B.D[:, None], tols=2 * ref.tol(b) + 2e-6 * r_max)
    require(np.all(counts % frames == 0), "bin_counts of repeated frames", got=counts, frames=frames)
    counts = counts / frames
    msg = h.check(counts)
    require(msg is None, f"bin_counts: {msg}", edges=e[:5])
    d.nontrivial((counts > 0).sum() >= 2 and counts.sum() >= 3)
    # first and last bins are half open
    nq, n = len(s.Q), len(s.P)
    if mode == "finite_size" and nq < 2:
        return
    rho = nq / b.volume * ((nq - 1) / nq if mode == "finite_size" else 1)
    lo = r_min + np.arange(bins) * (r_max - r_min) / bins
    hi = lo + (r_max - r_min) / bins
    v = vol(b, lo, hi)
    # shell volumes of thin far shells are differences of nearly equal float32 numbers
    rel = 1e-4 + 3e-6 * (vol(b, 0, hi) / v)
    want = counts / (n * rho * v)
    close("rdf", g, want, rtol=0, atol=rel * np.abs(want) + 1e-12)
    require(np.all((g == 0) == (counts == 0)), "rdf is zero exactly in empty bins")
    close("n_r", n_r, np.cumsum(counts) / nq, rtol=2e-6 * (10 + bins), atol=1e-9)
    require(r.box == b.fb, "box of the last computation")


def edges(d):
    """Distances exactly on bin edges and cutoffs: bins are half open."""
    import freud

    bins = d.int(1, 16)
    w = d.choice((0.25, 0.5, 1.0, 2.0))
    lo = w * d.int(0, 3)
    hi = lo + w * bins
    is2D = d.bool()
    L = 100.0
    b = gen.BoxSpec(L, L, 0 if is2D else L, is2D=is2D)
    # exact multiples of w/2 along an axis: every distance and edge is exact in float32
    m = d.int(1, 10)
    ks = [d.int(0, 2 * bins + 2 * int(lo / w) + 3) for _ in range(m)]
    D = np.array([0.5 * w * k for k in ks])
    ax = d.draw(1 if is2D else 2)
    V = np.zeros((m, 3), dtype=np.float32)
    V[:, ax] = D * (1 if d.bool() else -1)
    nl = freud.locality.NeighborList.from_arrays(1, m, np.zeros(m, int), np.arange(m), V)
    r = freud.density.RDF(bins, hi, lo)
    P = np.zeros((m, 3), dtype=np.float32)
    r.compute((b.fb, P), query_points=P[:1], neighbors=nl)
    e = lo + np.arange(bins + 1) * w
    want = np.array([np.sum((D >= e[k]) & (D < e[k + 1])) for k in range(bins)])
    d.note(bins=bins, r_min=lo, r_max=hi, distances=D)
    d.nontrivial(m > 1)
    # power-of-two bin widths are exact; others may round
    if np.log2(bins) % 1 == 0 or True:
        inv = np.float32(bins) / np.float32(hi - lo)
        exact = float(inv) == bins / (hi - lo)
        if exact:
            equal("bin_counts of distances on edges", r.bin_counts, want)
    msg = ref.HistRef([e], D[:, None], tols=1e-5 * hi).check(np.asarray(r.bin_counts))
    require(msg is None, f"bin_counts: {msg}")


def inside(d):
    """Every distance in [r_min, r_max) is counted, however close to an edge."""
    import freud

    bins = d.int(1, 200)
    hi = np.float32(d.choice((1.0, 1.3, 2.0, 2.7, 3.0)) if d.bool() else d.float(0.1, 20))
    lo = np.float32(0) if d.bool() else np.float32(hi * d.float(0, 0.9))
    r = freud.density.RDF(bins, float(hi), float(lo))
    e = np.asarray(r.bin_edges)
    x = [np.nextafter(hi, np.float32(0)), lo, np.nextafter(lo, np.float32(100)), hi, np.nextafter(hi, np.float32(100))]
    for _ in range(d.int(0, 8)):
        k = e[d.draw(bins)]
        x.append(d.choice((k, np.nextafter(k, np.float32(0)), np.nextafter(k, np.float32(100)))))
    x = np.array(x, dtype=np.float32)
    m = len(x)
    V = np.zeros((m, 3), dtype=np.float32)
    is2D = d.bool()
    ax = d.draw(1 if is2D else 2)
    V[:, ax] = -x if d.bool() else x
    nl = freud.locality.NeighborList.from_arrays(1, m, np.zeros(m, int), np.arange(m), V)
    D = np.asarray(nl.distances)
    d.note(bins=bins, r_max=hi, r_min=lo, distances=x)
    b = freud.box.Box(100, 100, 0 if is2D else 100, is2D=is2D)
    r.compute((b, np.zeros((m, 3))), query_points=np.zeros((1, 3)), neighbors=nl)
    N = np.asarray(r.bin_counts).astype(int)
    ok = (D >= lo) & (D < hi)
    d.nontrivial(ok.sum() > 1)
    require(N.sum() == ok.sum(), "number of counted distances", got=N.sum(), want=ok.sum(), distances=D, counts=N)
    msg = ref.HistRef([np.linspace(float(lo), float(hi), bins + 1)], D[ok, None].astype(float),
                      tols=4e-7 * (bins + 4) * float(hi - lo) / bins + 1e-6 * float(hi)).check(N)
    require(msg is None, f"bin_counts: {msg}")


def total(d):
    """Summing g(r) over shells recovers the number of neighbors."""
    import freud

    s = gen.system(d, nmin=2, nmax=60)
    b = s.b
    r_max = gen.rmax(d, b, lo=0.3)
    bins = d.int(1, 30)
    r = freud.density.RDF(bins, r_max)
    r.compute((b.fb, s.P), None if s.same else s.Q)
    nq, n = len(s.Q), len(s.P)
    v = vol(b, *np.array([np.asarray(r.bin_edges)[:-1], np.asarray(r.bin_edges)[1:]], dtype=float))
    x = float((np.asarray(r.rdf) * v).sum() * n / b.volume)
    lo = (ref.pairs(b, s.P, s.Q)[3] < r_max - 2 * ref.tol(b)).sum()
    hi = (ref.pairs(b, s.P, s.Q)[3] < r_max + 2 * ref.tol(b)).sum()
    if s.same:
        lo, hi = lo - n, hi - n
    d.note(r_max=r_max, bins=bins)
    d.nontrivial(lo > 1)
    require(lo / nq * (1 - 1e-3) - 1e-6 <= x <= hi / nq * (1 + 1e-3) + 1e-6, "integral of g(r)", got=x,
            want=[lo / nq, hi / nq])
    # finer bins refine the counts
    f = d.int(2, 4)
    r2 = freud.density.RDF(bins * f, r_max)
    r2.compute((b.fb, s.P), None if s.same else s.Q)
    D = ref.pairs(b, s.P, s.Q)[3]
    e = np.asarray(r.bin_edges, dtype=float)
    if np.abs(D[:, None] - e[None, :]).min() > 2e-6 * (r_max + b.scale):
        equal("counts of merged bins", np.asarray(r2.bin_counts).reshape(bins, f).sum(axis=1), r.bin_counts)


def many_bins(d):
    import freud

    bins = d.choice((1500, 3000, 20000))
    b = gen.BoxSpec(10, 10, 10)
    P = gen.points(d, b, d.int(2, 20), "uniform")
    r = freud.density.RDF(bins, 4.5)
    r.compute((b.fb, P))
    D = ref.pairs(b, P, P)[3].reshape(len(P), len(P))[~np.eye(len(P), dtype=bool)]
    msg = ref.HistRef([np.asarray(r.bin_edges)], D[:, None], tols=1e-4).check(np.asarray(r.bin_counts))
    d.note(bins=bins, points=P)
    d.nontrivial()
    require(msg is None, f"bin_counts: {msg}")


def rejects(d):
    import freud

    d.nontrivial()
    k = d.choice(((0, 1.0, 0), (5, 0, 0), (5, -1.0, 0), (5, 1.0, -0.1), (5, 1.0, 1.0), (5, 1.0, 2.0)))
    d.note(args=k)
    require(raises(lambda: freud.density.RDF(*k)), "invalid parameters accepted", args=k)
    require(raises(lambda: freud.density.RDF(5, 1.0, normalization_mode="x"), ValueError), "invalid mode accepted")
    require(raises(lambda: freud.density.RDF(5, 1.0).rdf, AttributeError), "result before compute")


SUBS = [Sub(rdf, 6000), Sub(edges, 2500), Sub(inside, 2500), Sub(total, 1500), Sub(many_bins, 20, 2000), Sub(rejects, 60, 200)]
