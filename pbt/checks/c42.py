"""C42: plots and images show the computed data."""

import io
import os
import warnings

import numpy as np

os.environ.setdefault("MPLBACKEND", "agg")

from .. import gen  # noqa: E402
from ..engine import Discard, Sub, close, equal, require, same_shape  # noqa: E402
from . import analyses  # noqa: E402

PROP = "C42"
RULE = ("Every class with a plot method after computes of random systems, on new and on given axes. The artists "
        "matplotlib holds are read back: lines against the result arrays; bars against the sizes of the clusters; "
        "histograms against numpy; the pixel of an image at the position of every bin against the bin's value (grids, "
        "PMFTs and patterns with unequal axes); edges of boxes against float64 corners; polygons and colors of Voronoi "
        "cells. png: the notebook representation decodes and shows the same picture as the plot. Non-trivial: data "
        "that is not symmetric under exchange or reversal of the axes, or two or more distinct values.")


def pyplot():
    import matplotlib

    matplotlib.use("agg")
    import matplotlib.pyplot as plt

    return plt


class Figures:
    """Closes all figures; draws whether axes are given, and checks that they are used."""

    def __init__(self, d, three=False):
        self.plt = pyplot()
        self.three = three
        self.given = d.bool()
        self.other = d.bool(3)  # some other figure is current

    def __enter__(self):
        self.plt.close("all")
        self.catch = warnings.catch_warnings()
        self.catch.__enter__()
        warnings.simplefilter("ignore")
        return self

    def __exit__(self, *a):
        self.plt.close("all")
        self.catch.__exit__(*a)

    def draw(self, plot):
        """plot(**kw) -> axes. Returns the axes."""
        plt = self.plt
        ax = None
        kw = {}
        if self.given:
            f = plt.figure()
            ax = f.add_subplot(1, 2, 2, projection="3d") if self.three else f.add_subplot(1, 2, 2)
            kw["ax"] = ax
        if self.other:
            o = plt.figure().add_subplot()
        before = set(plt.get_fignums())
        r = plot(**kw)
        got = r[0] if isinstance(r, tuple) else r
        new = set(plt.get_fignums()) - before
        if self.given:
            require(got is ax, "plot does not return the given axes")
            require(not new, "plot with given axes makes another figure")
        else:
            require(got is not None and got.figure.number in new, "plot without axes does not make a new figure")
        if self.other:
            require(not (o.lines or o.images or o.patches or o.collections), "plot draws on axes it was not given")
        return r


def computed(d, name, **kw):
    an = analyses.ALL[name]
    inp = analyses.general(d, an, **kw)
    o = an.make(inp.prm)
    an.compute(o, inp, inp.system())
    return an, inp, o


# -- lines -----------------------------------------------------------------------------------------

def lines(d):
    import freud

    k = d.choice(("RDF", "CorrelationFunction", "StaticStructureFactorDebye", "MSD", "Direct"))
    d.label(k)
    if k == "Direct":
        b = gen.box(d, dims=3, kinds=("ortho",))
        P = gen.points(d, b, d.int(2, 10))
        # a few hundred k vectors
        kmax = 2 * np.pi * d.float(2.0, 3.5) / (b.volume ** (1 / 3))
        o = freud.diffraction.StaticStructureFactorDirect(d.int(2, 12), float(kmax))
        o.compute((b.fb, P))
    elif k == "MSD":
        an = analyses.ALL[k]
        b = gen.box(d)
        inp = analyses.general(d, an, nmax=6)
        o = an.make(inp.prm)
        an.compute(o, inp, inp.system())
    else:
        _, _, o = computed(d, k, nmax=10)
    if k == "RDF":
        x, y = o.bin_centers, o.rdf
    elif k == "CorrelationFunction":
        x, y = o.bin_centers, np.real(o.correlation)
    elif k == "MSD":
        x, y = np.arange(len(o.msd)), o.msd
    else:
        x = np.asarray(o.k_values if k.endswith("Debye") else o.bin_centers)
        keep = x > o.min_valid_k
        x, y = x[keep], np.asarray(o.S_k)[keep]
    x, y = np.array(x), np.array(y)
    with Figures(d) as f:
        ax = f.draw(o.plot)
        require(len(ax.lines) == 1, f"{k}: lines in the plot", got=len(ax.lines))
        ln = ax.lines[0]
        gx, gy = np.asarray(ln.get_xdata(), float), np.asarray(ln.get_ydata(), float)
        close(f"{k}: x values of the plotted line", gx, x, rtol=1e-6, atol=0)
        require(gy.shape == y.shape, f"{k}: shape of the plotted line")
        bad = ~((gy == y) | (np.abs(gy - y) <= 1e-6 * np.abs(y)) | (np.isnan(gy) & np.isnan(y)))
        require(not bad.any(), f"{k}: plotted values", got=gy, want=y)
        # the view shows all points
        fin = np.isfinite(y)
        if fin.any() and ax.get_xscale() == "linear":
            x0, x1 = sorted(ax.get_xlim())
            y0, y1 = sorted(ax.get_ylim())
            s = max(abs(x0), abs(x1), 1e-30)
            require((x[fin] >= x0 - 1e-6 * s).all() and (x[fin] <= x1 + 1e-6 * s).all(), f"{k}: x range of the plot")
            s = max(abs(y0), abs(y1), 1e-30)
            require((y[fin] >= y0 - 1e-6 * s).all() and (y[fin] <= y1 + 1e-6 * s).all(), f"{k}: y range of the plot")
        d.nontrivial(len(np.unique(y[fin])) > 1 and len(x) > 1)


# -- clusters and histograms -------------------------------------------------------------------------

def clusters(d):
    import freud

    k = d.choice(("Cluster", "Cluster", "EnvironmentCluster", "SolidLiquid"))
    d.label(k)
    b = gen.box(d, dims=3 if k != "Cluster" else None, wide=False)
    n = d.int(2, 40) if k == "Cluster" else d.int(6, 20)
    P = gen.points(d, b, n, d.choice(("uniform", "cluster", "lattice")))
    if k == "Cluster":
        nq = freud.locality.AABBQuery(b.fb, P)
        r = float(b.rhalf * d.choice((0.1, 0.3, 0.5)))
        o = freud.cluster.Cluster()
        keys = d.rng().integers(0, 50, n) if d.bool(3) else None
        o.compute(nq, keys=keys, neighbors={"r_max": r, "exclude_ii": True})
    elif k == "EnvironmentCluster":
        o = freud.environment.EnvironmentCluster()
        o.compute((b.fb, P), threshold=0.3 * b.rhalf, cluster_neighbors={"num_neighbors": 2, "r_guess": 1, "r_max": b.rhalf * 0.95})
    else:
        o = freud.order.SolidLiquid(6, q_threshold=0.3, solid_threshold=2)
        o.compute((b.fb, P), neighbors={"r_max": float(0.6 * b.rhalf), "exclude_ii": True})
    idx = np.asarray(o.cluster_idx)
    vals, counts = np.unique(idx, return_counts=True)
    d.note(cluster_idx=idx)
    with Figures(d) as f:
        ax = f.draw(o.plot)
        want = sorted((int(c) for c in counts), reverse=True)[:10]
        h = [p.get_height() for p in ax.patches]
        equal(f"{k}: heights of the bars", h, want)
        labels = [t.get_text() for t in ax.get_xticklabels()]
        require(len(labels) == len(want) and len(set(labels)) == len(labels), f"{k}: labels of the bars", got=labels)
        ticks = ax.get_xticks()
        size = {str(v): int(c) for v, c in zip(vals, counts)}
        for p, t, x in zip(ax.patches, labels, ticks):
            require(t in size and size[t] == p.get_height(), f"{k}: a bar's label names a cluster of another size",
                    label=t, height=p.get_height(), sizes=size)
            require(abs(p.get_x() + p.get_width() / 2 - x) < 1e-9, f"{k}: a label is not below its bar")
        d.nontrivial(len(set(want)) > 1)


def histograms(d):
    import freud

    k = d.choice(("Hexatic", "Steinhardt"))
    d.label(k)
    if k == "Hexatic":
        an, inp, o = computed(d, "Hexatic")
        series = [np.abs(np.asarray(o.particle_order))]
    else:
        b = gen.box(d, dims=3, wide=False)
        P = gen.points(d, b, d.int(4, 20), "uniform")
        ls = d.choice((6, [4, 6], [2, 3, 8]))
        o = freud.order.Steinhardt(ls, average=d.bool(3))
        o.compute((b.fb, P), neighbors={"r_max": float(0.7 * b.rhalf), "exclude_ii": True})
        v = np.asarray(o.particle_order)
        series = [v] if v.ndim == 1 else list(v.T)
    if not all(np.isfinite(s).all() for s in series):
        raise Discard("undefined values")
    d.note(values=series)
    with Figures(d) as f:
        ax = f.draw(o.plot)
        bars = ax.containers
        require(len(bars) == len(series), f"{k}: histograms in the plot", got=len(bars))
        for n, (s, c) in enumerate(zip(series, bars)):
            h = np.array([p.get_height() for p in c])
            require(h.sum() == len(s), f"{k}: particles in the histogram", got=h.sum(), want=len(s))
            allv = np.concatenate(series)
            e = np.linspace(allv.min(), allv.max(), len(h) + 1)
            if len(series) == 1:
                e = np.array([p.get_x() for p in c] + [c[-1].get_x() + c[-1].get_width()])
                require(e[0] <= s.min() + 1e-6 and e[-1] >= s.max() - 1e-6, f"{k}: range of the histogram")
            # values next to an edge may be counted on either side of it
            w = 1e-9 + 2e-6 * np.abs(e).max()
            lo = np.array([np.sum((s >= e[i] + w) & (s < e[i + 1] - w)) for i in range(len(h))])
            hi = np.array([np.sum((s >= e[i] - w) & (s <= e[i + 1] + w)) for i in range(len(h))])
            require(((h >= lo) & (h <= hi)).all(), f"{k}: heights of histogram {n}", got=h, least=lo, most=hi)
        leg = ax.get_legend()
        if len(series) > 1:
            t = [x.get_text() for x in leg.get_texts()]
            require(len(t) == len(series) and all(str(l) in x for l, x in zip(ls, t)), f"{k}: legend", got=t, l=ls)
        d.nontrivial(len(np.unique(np.concatenate(series))) > 1)


# -- images ----------------------------------------------------------------------------------------

def pixel(im, x, y):
    """The row and column of the image at data coordinates (x, y)."""
    ny, nx = im.get_array().shape[:2]
    x0, x1, y0, y1 = im.get_extent()
    c = np.clip(np.floor((x - x0) / (x1 - x0) * nx * (1 + 1e-9)), 0, nx - 1).astype(int)
    v = (y - y0) / (y1 - y0)
    if im.origin == "upper":
        r = np.clip(np.ceil((1 - v) * ny * (1 - 1e-9)) - 1, 0, ny - 1).astype(int)
    else:
        r = np.clip(np.floor(v * ny * (1 + 1e-9)), 0, ny - 1).astype(int)
    return r, c


def shown(im, X, Y):
    a = im.get_array()
    r, c = pixel(im, X, Y)
    a = a.filled(np.nan) if hasattr(a, "filled") else np.asarray(a)
    return a[r, c]


def one_image(what, ax, shape):
    require(len(ax.images) == 1, f"{what}: images in the plot", got=len(ax.images))
    im = ax.images[0]
    require(im.get_array().shape[:2] == shape, f"{what}: shape of the image", got=im.get_array().shape, want=shape)
    require(not ax.xaxis_inverted() and not ax.yaxis_inverted(), f"{what}: an axis of the plot is reversed")
    return im


def colors(what, im, v, ok):
    """The scale goes from small to large values."""
    n = im.norm
    a = np.asarray(im.get_array()[~np.isnan(im.get_array())] if ok else [0.0])
    if len(a):
        require(n.vmin <= n.vmax, f"{what}: color scale")
    return n


def density(d):
    import freud

    k = d.choice(("GaussianDensity", "SphereVoxelization"))
    d.label(k)
    b = gen.box(d, dims=d.weighted((5, 2), (1, 3)), kinds=("ortho", "cubic"), wide=False)
    P = gen.points(d, b, d.int(1, 6))
    w = (d.int(2, 14), d.int(2, 14)) + (() if b.is2D else (d.int(2, 8),))
    r = float(np.float32(d.float(0.2, 0.9) * b.rhalf))
    if k == "GaussianDensity":
        o = freud.density.GaussianDensity(w, r, float(d.float(0.2, 1) * r))
        v = np.array(o.compute((b.fb, P)).density)
    else:
        o = freud.density.SphereVoxelization(w, r)
        v = np.array(o.compute((b.fb, P)).voxels)
    d.note(box=b.desc(), points=P, width=w, r_max=r)
    with Figures(d) as f:
        if not b.is2D:
            require(o.plot() is None and o._repr_png_() is None, f"{k}: 3D plot")
            return
        ax = f.draw(o.plot)
        im = one_image(k, ax, (w[1], w[0]))
        e = im.get_extent()
        close(f"{k}: extent", np.array(e, float), [-b.Lx / 2, b.Lx / 2, -b.Ly / 2, b.Ly / 2], rtol=1e-5)
        X, Y = np.meshgrid(((np.arange(w[0]) + 0.5) / w[0] - 0.5) * b.Lx, ((np.arange(w[1]) + 0.5) / w[1] - 0.5) * b.Ly,
                           indexing="ij")
        close(f"{k}: pixels", shown(im, X, Y), v, rtol=1e-6, atol=0)
        colors(k, im, v, True)
        if np.ptp(v) > 0:
            close(f"{k}: color scale", [im.norm.vmin, im.norm.vmax], [v.min(), v.max()], rtol=1e-6, atol=0)
    d.nontrivial(w[0] != w[1] or not (np.allclose(v, v.T) and np.allclose(v, v[::-1])))


def pmft(d):
    an, inp, o = computed(d, "PMFTXY")
    v = np.array(o.pmft)
    (x0, x1), (y0, y1) = o.bounds
    cmap = d.choice((None, "viridis", "plasma"))
    cx, cy = (np.asarray(c, float) for c in o.bin_centers)
    d.note(counts=np.asarray(o.bin_counts), bounds=[x0, x1, y0, y1])
    with Figures(d) as f:
        ax = f.draw(lambda **kw: o.plot(**kw, **({} if cmap is None else {"cmap": cmap})))
        im = one_image("PMFTXY", ax, (len(cy), len(cx)))
        close("PMFTXY: extent", np.array(im.get_extent(), float), [x0, x1, y0, y1], rtol=1e-5)
        X, Y = np.meshgrid(cx, cy, indexing="ij")
        g = shown(im, X, Y)
        fin = np.isfinite(v)
        require((np.isnan(g) == ~fin).all(), "PMFTXY: empty bins in the plot", got=np.argwhere(~np.isnan(g)),
                want=np.argwhere(fin))
        close("PMFTXY: pixels", g[fin], v[fin], rtol=1e-6, atol=0)
        require(im.get_cmap().name == (cmap or "viridis"), "PMFTXY: colormap", got=im.get_cmap().name)
        require(np.isinf(np.array(o.pmft)).sum() == np.isinf(v).sum(), "plotting changes the PMFT")
    d.nontrivial(fin.any() and not (v.shape == v.T.shape and (fin == fin.T).all()))


def pattern(d):
    import freud
    import matplotlib

    b = gen.box(d, dims=3, kinds=("cubic",), wide=False)
    if len({b.Lx, b.Ly, b.Lz}) > 1:
        raise Discard("not cubic")
    out = d.int(8, 40)
    o = freud.diffraction.DiffractionPattern(d.int(16, 48), out)
    for _ in range(1 + d.small(1)):
        n = d.int(2, 12)
        P = gen.points(d, b, n)
        o.compute((b.fb, P), gen.unit_quat(d), zoom=d.choice((4, 2, 1.5)), peak_width=d.choice((1, 0.3)), reset=False)
    D = np.array(o.diffraction)
    kv = np.array(o.k_values, dtype=float)
    cmap = d.choice(("afmhot", "viridis"))
    vmin = d.choice((None, 1e-3))
    vmax = d.choice((None, 1.5))
    kw = {}
    if cmap != "afmhot":
        kw["cmap"] = cmap
    if vmin is not None:
        kw["vmin"] = vmin
    if vmax is not None:
        kw["vmax"] = vmax
    lo = 4e-6 * n if vmin is None else vmin
    hi = 0.7 * n if vmax is None else vmax
    want = np.clip(D, lo, hi)
    d.note(n=n, output_size=out, **kw)
    with Figures(d) as f:
        ax = f.draw(lambda **a: o.plot(**a, **kw))
        im = one_image("DiffractionPattern", ax, (out, out))
        close("DiffractionPattern: extent", np.array(im.get_extent(), float), [kv[0], kv[-1], kv[0], kv[-1]], rtol=1e-6)
        X, Y = np.meshgrid(kv, kv, indexing="ij")
        close("DiffractionPattern: pixels", np.clip(shown(im, X, Y), lo, hi), want, rtol=1e-6, atol=0)
        close("DiffractionPattern: color scale", [im.norm.vmin, im.norm.vmax], [lo, hi], rtol=1e-6, atol=0)
        require(isinstance(im.norm, matplotlib.colors.LogNorm), "DiffractionPattern: the scale is logarithmic")
        require(im.get_cmap().name == cmap, "DiffractionPattern: colormap", got=im.get_cmap().name)
    px = same_shape("to_image", o.to_image(**kw), (out, out, 4))
    require(px.dtype == np.uint8, "type of to_image")
    w = (matplotlib.colormaps[cmap](matplotlib.colors.LogNorm(lo, hi)(want.T)) * 255).astype(int)
    # the first row is the one of the largest or of the smallest y
    df = min(np.abs(px.astype(int) - w).max(), np.abs(px.astype(int) - w[::-1]).max())
    require(df <= 1, "to_image: colors", difference=df)
    require((np.array(o.diffraction) == D).all(), "plotting changes the pattern")
    d.nontrivial(not np.allclose(want, want.T) and len(np.unique(want)) > 3)


# -- boxes and points --------------------------------------------------------------------------------

def corners_of(b, image):
    F = np.array([[i, j, k] for i in (0, 1) for j in (0, 1) for k in ((0, 1) if not b.is2D else (0.5,))], float)
    C = (F - 0.5 + np.asarray(image) * np.array([1, 1, 0 if b.is2D else 1])) @ b.M.T
    E = [(a, c) for a in range(len(F)) for c in range(a) if np.abs(F[a] - F[c]).sum() == 1]
    return C, E


def check_edges(what, b, ax, image=(0, 0, 0)):
    C, E = corners_of(b, image)
    tol = 1e-5 * (np.abs(C).max() + b.scale)
    dim = 2 if b.is2D else 3
    left = {frozenset(e) for e in E}
    for ln in ax.lines:
        xyz = np.array(ln.get_data_3d() if dim == 3 else ln.get_data()).T
        i = []
        for p in xyz:
            q = np.flatnonzero(np.abs(C[:, :dim] - p).max(axis=1) < tol)
            require(len(q) == 1, f"{what}: a line has a vertex that is no corner of the box", got=p, corners=C)
            i.append(int(q[0]))
        for a, c in zip(i, i[1:]):
            require(frozenset((a, c)) in {frozenset(e) for e in E}, f"{what}: a line is no edge of the box", got=[C[a], C[c]])
            left.discard(frozenset((a, c)))
    require(not left, f"{what}: edges are missing", got=[[C[i] for i in e] for e in left])


def boxes(d):
    import freud
    import matplotlib.colors as mc

    b = gen.box(d)
    image = d.choice((None, [0, 0, 0], [1, 0, 0], [0, -1, 0], [2, 1, -1]))
    title = d.choice((None, "a title"))
    args = d.choice(((), ("--",), ("o-",)))
    kw = {}
    if d.bool():
        kw["color"] = d.choice(("r", "#123456"))
    if d.bool(3):
        kw["linewidth"] = 3.5
    if d.bool(3):
        kw["alpha"] = 0.25
    if d.bool(4):
        kw["label"] = "edge"
    system = d.bool()
    dim = 2 if b.is2D else 3
    d.label(f"{dim}D", "system" if system else "box", *kw)
    with Figures(d, three=dim == 3) as f:
        if not system:
            d.note(box=b.desc(), image=image, title=title, args=args, kwargs=kw)
            if args:
                ax = f.draw(lambda **a: b.fb.plot(title, a.get("ax"), image, *args, **kw))
            else:
                ax = f.draw(lambda **a: b.fb.plot(title=title, image=image, **a, **kw))
            check_edges("Box.plot", b, ax, image or [0, 0, 0])
            for ln in ax.lines:
                require(mc.same_color(ln.get_color(), kw.get("color", "k")), "Box.plot: color of a line", got=ln.get_color())
                if "linewidth" in kw:
                    require(ln.get_linewidth() == 3.5, "Box.plot: width of a line", got=ln.get_linewidth())
                require(ln.get_alpha() == kw.get("alpha"), "Box.plot: alpha of a line", got=ln.get_alpha())
                if args:
                    require(ln.get_linestyle() == args[0][-1:] * len(args[0].replace("o", "")) and
                            (ln.get_marker() == "o") == (args[0][0] == "o"), "Box.plot: style of a line",
                            got=[ln.get_linestyle(), ln.get_marker()])
                if "label" in kw:
                    require(ln.get_label() == "edge", "Box.plot: label of a line")
        else:
            P = gen.points(d, b, d.int(1, 8))
            kind = d.choice(("aabb", "link", "tuple"))
            sysm = freud.AABBQuery(b.fb, P)
            if kind == "link" and b.ortho:
                sysm = freud.locality.LinkCell(b.fb, P, float(0.6 * b.rhalf))
            size = d.choice((None, 7.0))
            skw = {} if size is None else {"s": size}
            if "color" in kw:
                skw["color"] = kw["color"]
            d.note(box=b.desc(), points=P, title=title, kwargs=skw)
            if size is not None and dim == 2 and d.bool():
                skw.pop("s")
                ax, sc = f.draw(lambda **a: sysm.plot(a.get("ax"), title, size, **skw))
            else:
                ax, sc = f.draw(lambda **a: sysm.plot(title=title, **a, **skw))
            check_edges("NeighborQuery.plot", b, ax)
            require(sc in ax.collections and len(ax.collections) == 1, "NeighborQuery.plot: collections")
            got = np.array(sc._offsets3d).T if dim == 3 else np.asarray(sc.get_offsets())
            # 3D scatter plots sort points by depth only when drawn
            close("NeighborQuery.plot: points", np.asarray(got, float), P[:, :dim].astype(float), rtol=1e-6, atol=1e-6)
            if size is not None:
                require(set(np.asarray(sc.get_sizes())) == {size}, "NeighborQuery.plot: sizes", got=sc.get_sizes())
            if "color" in kw:
                require(all(mc.same_color(c[:3], kw["color"]) for c in sc.get_facecolor()), "NeighborQuery.plot: color")
        require(ax.get_title() == (title or ""), "title of the plot", got=ax.get_title(), want=title)
    d.nontrivial(not b.ortho or bool(kw) or bool(args))


def voronoi(d):
    import freud

    b = gen.box(d, dims=2, wide=False)
    n = d.int(6, 30)
    P = gen.points(d, b, n, "uniform")
    v = freud.locality.Voronoi()
    try:
        v.compute((b.fb, P))
    except Exception:  # noqa: BLE001
        raise Discard("no diagram") from None
    by = d.choice((None, "sides", "area"))
    cmap = d.choice((None, None, "plasma"))
    d.note(box=b.desc(), points=P, color_by=by, cmap=cmap)
    d.label(f"by {by}")
    poly = [np.asarray(p) for p in v.polytopes]
    sides = np.array([len(p) for p in poly])
    area = np.array(v.volumes, float)
    with Figures(d) as f:
        ax = f.draw(lambda **a: v.plot(**a, color_by=by, cmap=cmap))
        check_edges("Voronoi.plot", b, ax)
        require(len(ax.collections) == 1, "Voronoi.plot: collections")
        pc = ax.collections[0]
        paths = pc.get_paths()
        require(len(paths) == n, "Voronoi.plot: number of cells", got=len(paths), want=n)
        for p, w in zip(paths, poly):
            g = p.vertices[:len(w)]
            close("Voronoi.plot: vertices of a cell", g, w[:, :2], rtol=1e-6, atol=1e-6)
        pc.update_scalarmappable()
        c = [tuple(x[:3]) for x in pc.get_facecolor()]
        if by == "sides":
            for i in range(n):
                for j in range(i):
                    if sides[i] == sides[j]:
                        require(c[i] == c[j], "Voronoi.plot: cells with as many sides have different colors")
                    elif np.ptp(sides) < 10:
                        require(c[i] != c[j], "Voronoi.plot: cells with other numbers of sides have the same color",
                                sides=[sides[i], sides[j]], colors=[c[i], c[j]])
        elif by == "area":
            lo, hi = pc.norm.vmin, pc.norm.vmax
            want = pc.get_cmap()(pc.norm(area))[:, :3]
            close("Voronoi.plot: a cell's color is the one of its area on the scale", np.array(c), want, rtol=0, atol=1e-3,
                  scale=[lo, hi])
            require(lo <= area.min() * (1 + 1e-6) and hi >= area.max() * (1 - 1e-6), "Voronoi.plot: range of the scale",
                    got=[lo, hi], want=[area.min(), area.max()])
        if cmap:
            require(pc.get_cmap().name.startswith(cmap), "Voronoi.plot: colormap", got=pc.get_cmap().name)
        x0, x1 = ax.get_xlim()
        y0, y1 = ax.get_ylim()
        C, _ = corners_of(b, (0, 0, 0))
        t = 1e-5 * b.scale
        require(x0 <= C[:, 0].min() + t and x1 >= C[:, 0].max() - t and y0 <= C[:, 1].min() + t and
                y1 >= C[:, 1].max() - t, "Voronoi.plot: the view does not show the box")
    d.nontrivial(len(set(sides)) > 1)


def png(d):
    """_repr_png_ is the saved plot."""
    plt = pyplot()
    k = d.choice(("RDF", "CorrelationFunction", "Cluster", "PMFTXY", "MSD"))
    d.label(k)
    _, _, o = computed(d, k, nmax=8)
    plt.close("all")
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            got = o._repr_png_()
            require(isinstance(got, bytes) and got[:8] == b"\x89PNG\r\n\x1a\n", f"{k}: _repr_png_ is no PNG", got=type(got))
            a = plt.imread(io.BytesIO(got))
            ax = o.plot()
            buf = io.BytesIO()
            ax.figure.savefig(buf, format="png")
            w = plt.imread(io.BytesIO(buf.getvalue()))
            require(a.shape == w.shape and (a == w).all(), f"{k}: _repr_png_ shows another picture than plot")
            require(np.ptp(a[..., :3]) > 0, f"{k}: _repr_png_ is blank")
    finally:
        plt.close("all")
    d.nontrivial()


SUBS = [Sub(lines, 100), Sub(clusters, 100), Sub(histograms, 60), Sub(density, 100), Sub(pmft, 80), Sub(pattern, 60),
        Sub(boxes, 200), Sub(voronoi, 80), Sub(png, 15)]
