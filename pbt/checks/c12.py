"""C12: correlation function."""

import numpy as np

from .. import gen, ref
from ..engine import Sub, close, raises, require, same_shape
from . import common
from .c11 import check_edges

PROP = "C12"
RULE = ("2D and 3D systems of 1 to 60 points with real, complex, integer and mixed values of magnitudes 1e-6 to 1e6, "
        "separate query values, 1 to 60 bins, default neighbors, query arguments or explicit lists. Oracle: float64 "
        "averages per bin over the pairs of one to four frames; bins with pairs within rounding of an edge are only "
        "bounded. Non-trivial: "
        "at least two bins with pairs and some bin with two pairs.")


def draw_values(d, n):
    g = d.rng()
    kind = d.choice(("real", "complex", "int", "phase", "ones"))
    sc = d.choice((1.0, 1.0, 1e-6, 1e6))
    if kind == "real":
        v = g.normal(size=n) * sc
    elif kind == "complex":
        v = (g.normal(size=n) + 1j * g.normal(size=n)) * sc
    elif kind == "int":
        v = g.integers(-5, 6, n)
    elif kind == "phase":
        v = np.exp(1j * g.uniform(0, 2 * np.pi, n))
    else:
        v = np.ones(n)
    d.label("values:" + kind)
    return v


def reference(B, e, prod, tol):
    """(certain sum, certain count, uncertain per bin flag) of the bonds per bin."""
    nb = len(e) - 1
    a = np.searchsorted(e, B.D - tol, side="right") - 1
    c = np.searchsorted(e, B.D + tol, side="right") - 1
    sums = np.zeros(nb, dtype=complex)
    cnt = np.zeros(nb, dtype=int)
    mag = np.zeros(nb)
    open_ = np.zeros(nb, dtype=bool)
    for k in range(len(B.D)):
        if a[k] == c[k]:
            if 0 <= a[k] < nb:
                sums[a[k]] += prod[k]
                cnt[a[k]] += 1
                mag[a[k]] += abs(prod[k])
        else:
            for x in range(a[k], c[k] + 1):
                if 0 <= x < nb:
                    open_[x] = True
    return sums, cnt, mag, open_


def correlation(d):
    import freud

    s = gen.system(d, nmax=60)
    b = s.b
    bins = d.choice((1, 2, 5, 20)) if d.bool() else d.int(1, 60)
    r_max = gen.rmax(d, b, lo=0.2)
    B = common.bonds(d, s, default_rmax=r_max)
    frames = 1 if d.bool() else d.int(2, 4)
    own = d.bool() or (B.qp is not None and len(s.Q) != len(s.P))
    vs = [(draw_values(d, len(s.P)), draw_values(d, len(s.Q)) if own else None) for _ in range(frames)]
    d.note(bins=bins, r_max=r_max, values=vs, neighbors=B.neighbors if B.how != "list" else "list")
    c = freud.density.CorrelationFunction(bins, r_max)
    e = check_edges("CorrelationFunction", c, bins, 0.0, r_max)
    if d.bool(4):
        c.compute((b.fb, s.P), 1j * np.ones(len(s.P)), neighbors={"r_max": r_max})
    kw = B.kw()
    read = d.bool(4)
    for f, (v, qv) in enumerate(vs):
        if own:
            kw["query_values"] = qv
        c.compute(B.sys, v, **kw, **({"reset": f == 0} if frames > 1 or d.bool() else {}))
        if read:
            np.asarray(c.correlation)
    if frames > 1:
        d.label("accumulated")
    first = d.bool()
    if first:
        C = same_shape("correlation", c.correlation, (bins,))
    N = same_shape("bin_counts", c.bin_counts, (bins,)).astype(int)
    if not first:
        C = same_shape("correlation", c.correlation, (bins,))
    require(np.all(N % frames == 0), "bin_counts of frames with the same points", got=N, frames=frames)
    N = N // frames
    prod = np.mean([np.conj(np.asarray(v, dtype=complex)[B.J]) * np.asarray(v if qv is None else qv, dtype=complex)[B.I]
                    for v, qv in vs], axis=0)
    big = max([np.abs(v).max() * np.abs(v if qv is None else qv).max() for v, qv in vs])
    tol = 2 * ref.tol(b) + 2e-6 * r_max
    sums, cnt, mag, open_ = reference(B, e, prod, tol)
    require(np.array_equal(N[~open_], cnt[~open_]), "bin_counts", got=N, want=cnt)
    require(np.all(N >= cnt), "bin_counts", got=N, want=cnt)
    d.nontrivial((cnt > 0).sum() >= 2 and cnt.max(initial=0) >= 2)
    want = np.where(cnt > 0, sums / np.maximum(cnt, 1), 0)
    is_complex = bool(any(np.any(np.iscomplex(v)) or (qv is not None and np.any(np.iscomplex(qv))) for v, qv in vs))
    require(np.iscomplexobj(C) == is_complex, "type of the correlation", got=str(C.dtype), complex=is_complex)
    close("correlation", np.asarray(C, dtype=complex), want if is_complex else want.real.astype(complex), rtol=0,
          atol=1e-9 * (mag / np.maximum(cnt, 1) + (big if frames > 1 else 0)) + 1e-300, mask=~open_)
    require(np.all(np.asarray(C)[(N == 0)] == 0), "correlation of empty bins is not zero")
    require(np.all(np.abs(C) <= big * (1 + 1e-9)), "an average exceeds the largest product")
    require(c.bins == bins, "bins", got=c.bins)


def linear(d):
    import freud

    s = gen.system(d, nmin=2, nmax=40)
    b = s.b
    r_max = gen.rmax(d, b, lo=0.4)
    bins = d.int(1, 12)
    g = d.rng()
    n, m = len(s.P), len(s.Q)
    v = g.normal(size=n) + 1j * g.normal(size=n)
    v2 = g.normal(size=n) + 1j * g.normal(size=n)
    q = g.normal(size=m) + 1j * g.normal(size=m)
    q2 = g.normal(size=m) + 1j * g.normal(size=m)
    a = complex(g.normal(), g.normal())

    def go(x, y):
        c = freud.density.CorrelationFunction(bins, r_max)
        return np.asarray(c.compute((b.fb, s.P), x, s.Q, y).correlation, dtype=complex), np.asarray(c.bin_counts)

    base, N = go(v, q)
    d.note(r_max=r_max, bins=bins)
    d.nontrivial(N.sum() > 2)
    t = dict(rtol=1e-9, atol=1e-9)
    close("conjugate linear in the values", go(a * v, q)[0], np.conj(a) * base, **t)
    close("linear in the query values", go(v, a * q)[0], a * base, **t)
    close("additive in the values", go(v + v2, q)[0], base + go(v2, q)[0], **t)
    close("additive in the query values", go(v, q + q2)[0], base + go(v, q2)[0], **t)
    close("values of one", go(np.ones(n), np.ones(m))[0], (N > 0).astype(complex), **t)
    # exchanging the sets conjugates (for the same pairs)
    c = freud.density.CorrelationFunction(bins, r_max)
    x = np.asarray(c.compute((b.fb, s.Q), q, s.P, v).correlation, dtype=complex)
    if np.array_equal(np.asarray(c.bin_counts), N):
        D = ref.pairs(b, s.P, s.Q)[3]
        if np.abs(D[:, None] - np.asarray(c.bin_edges)[None, :]).min() > 4e-6 * b.scale:
            close("exchanging points and query points", x, np.conj(base), **t)


def rejects(d):
    import freud

    s = gen.system(d, nmin=2, nmax=10, query=True)
    if len(s.P) == len(s.Q):
        s.Q = np.concatenate([s.Q, s.Q])[:len(s.P) + 1]
    c = freud.density.CorrelationFunction(4, gen.rmax(d, s.b))
    n, m = len(s.P), len(s.Q)
    d.note(n=n, m=m)
    d.nontrivial()
    require(raises(lambda: c.compute((s.b.fb, s.P), np.ones(n + 1))), "too many values accepted")
    require(raises(lambda: c.compute((s.b.fb, s.P), np.ones(n - 1))), "too few values accepted")
    require(raises(lambda: c.compute((s.b.fb, s.P), np.ones(n), s.Q)), "missing query values accepted", n=n, m=m)
    require(raises(lambda: c.compute((s.b.fb, s.P), np.ones(n), s.Q, np.ones(n))), "wrong query values accepted")
    require(raises(lambda: freud.density.CorrelationFunction(0, 1.0)), "no bins accepted")
    require(raises(lambda: freud.density.CorrelationFunction(3, 0.0)), "r_max 0 accepted")
    c.compute((s.b.fb, s.P), np.ones(n))
    require(set(np.asarray(c.correlation).tolist()) <= {0.0, 1.0}, "compute after failures")


SUBS = [Sub(correlation, 5000), Sub(linear, 1500), Sub(rejects, 300)]
