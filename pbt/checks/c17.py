"""C17: local density."""

import numpy as np

from .. import gen, ref
from ..engine import Sub, close, raises, require, same_shape
from . import common

PROP = "C17"
RULE = ("2D and 3D systems of 1 to 60 points, r_max and diameter with r_max + diameter/2 below half the box (defaults) "
        "or any (lists), diameters from 0 to 3 r_max, separate query points, default neighbors, query arguments and "
        "lists with arbitrary bonds. Oracle: direct float64 sum; steps of zero diameter within rounding are bounded. "
        "Non-trivial: some query point has a fractional neighbor or a neighbor is beyond the range.")


def local_density(d):
    import freud

    s = gen.system(d, nmax=60)
    b = s.b
    r = gen.rmax(d, b, lo=0.1, hi=0.7)
    diam = d.choice((0.0, 1e-3, 1.0)) if d.bool(3) else d.float(0.01, 3.0)
    diam = float(np.float32(diam * r))
    reach = r + 0.5 * diam
    ld = freud.density.LocalDensity(r, diam)
    B = common.bonds(d, s, default_rmax=reach if reach < 0.98 * b.rhalf else None)
    if d.bool(4):
        ld.compute((b.fb, s.P), s.P[:1], {"r_max": 0.3 * b.rhalf})
    d.note(r_max=r, diameter=diam, neighbors=B.neighbors if B.how != "list" else "list")
    ld.compute(B.sys, **B.kw())
    nq = len(s.Q)
    N = same_shape("num_neighbors", ld.num_neighbors, (nq,)).astype(float)
    R = same_shape("density", ld.density, (nq,)).astype(float)
    t = 2 * ref.tol(b) + 1e-6 * r
    D = B.D
    inner, outer = r - diam / 2, r + diam / 2
    if diam > 0:
        w = np.clip((outer - D) / diam, 0, 1)
        e = np.minimum(1.0, t / diam)
        near = (D > inner - t) & (D < outer + t)
        slack = np.where(near, e, 0)
    else:
        w = (D < r).astype(float)
        slack = (np.abs(D - r) <= t).astype(float)
    want = np.bincount(B.I, w, nq)
    sl = np.bincount(B.I, slack, nq)
    d.nontrivial(np.any((w > 0) & (w < 1)) or np.any(w == 0))
    close("num_neighbors", N, want, rtol=2e-6, atol=sl * 1.01 + 1e-5)
    size = np.pi * r * r if b.is2D else 4 / 3 * np.pi * r ** 3
    close("density", R, N / size, rtol=1e-5, atol=1e-30)
    require(np.all(N >= 0), "a negative number of neighbors")
    require(ld.box == b.fb, "box")
    require(abs(ld.r_max - r) < 1e-6 * r and abs(ld.diameter - diam) <= 1e-6 * diam, "parameters")
    a = ld.default_query_args
    require(a["mode"] == "ball" and abs(a["r_max"] - reach) < 1e-5 * reach, "default query arguments", got=a)


def rejects(d):
    import freud

    d.nontrivial()
    r = d.float(0.1, 3)
    require(raises(lambda: freud.density.LocalDensity(-r if d.bool() else 0.0, 1.0)), "r_max <= 0 accepted")
    require(raises(lambda: freud.density.LocalDensity(r, -d.float(0.01, 1))), "negative diameter accepted")
    require(raises(lambda: freud.density.LocalDensity(r, 1.0).density, AttributeError), "density before compute")


SUBS = [Sub(local_density, 6000), Sub(rejects, 100)]
