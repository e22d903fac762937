"""C39: static structure factor by direct summation over reciprocal lattice vectors."""

import numpy as np

from .. import gen
from ..engine import Sub, close, equal, raises, require, same_shape
from .common import same_parameters

PROP = "C39"
RULE = ("3D boxes of any tilt, 1 to 40 points, partial structure factors with query points, k ranges, 1 to 4 frames of "
        "equal or different boxes, all k vectors or samples of them. Oracle: every reported k vector is a combination "
        "of the reciprocal vectors with non-negative integers inside the k range, without repetition; without "
        "sampling none is left out (those within rounding of the limits excepted); S(k) is the mean over the frames' "
        "k vectors of each bin of the float64 product of the structure amplitudes. Non-trivial: some bin has two or "
        "more k vectors.")


def bmat(b):
    """Rows: reciprocal vectors with the factor 2 pi."""
    return 2 * np.pi * b.Minv


def combos(b, kmax):
    m = [int(np.floor(kmax / (2 * np.pi) * np.linalg.norm(b.M[:, i]))) + 1 for i in range(3)]
    return np.array(np.meshgrid(*[np.arange(k + 1) for k in m], indexing="ij")).reshape(3, -1).T.astype(float)


def definition(d):
    import freud

    b = gen.box(d, dims=3, wide=False, Lmin=2.0, Lmax=8.0)
    two = d.bool(3)
    boxes = [b]
    if two:
        boxes.append(gen.box(d, dims=3, wide=False, Lmin=2.0, Lmax=8.0))
    lengths = [np.linalg.norm(x.M, axis=0) for x in boxes]
    # at most a few thousand k vectors
    kmax = d.float(0.5, 6) * 2 * np.pi / max(min(x) for x in lengths)
    while max(np.prod(x * kmax / 6.3 + 1) for x in lengths) > 6000:
        kmax *= 0.8
    kmin = 0.0 if d.bool() else d.float(0, 0.9) * kmax
    kmax, kmin = float(np.float32(kmax)), float(np.float32(kmin))
    nbins = d.int(1, 30)
    sampled = 0 if d.bool(2) else d.int(1, 400)
    o = freud.diffraction.StaticStructureFactorDirect(nbins, kmax, kmin, sampled)
    if d.bool(4):
        o.compute((b.fb, gen.points(d, b, 6, "uniform")))
    edges = np.linspace(kmin, kmax, nbins + 1)
    close("bin_edges", o.bin_edges, edges, rtol=2e-6, atol=1e-6 * kmax)
    total, lo, hi = np.zeros(nbins), np.zeros(nbins), np.zeros(nbins)
    cnt = np.zeros(nbins)
    err = np.zeros(nbins)
    near = np.zeros(nbins, dtype=bool)  # bins touched by k vectors within rounding of an edge
    frames = d.int(1, 4)
    d.note(boxes=[x.desc() for x in boxes], k_max=kmax, k_min=kmin, bins=nbins, num_sampled=sampled, frames=frames)
    d.label("sampled" if sampled else "all")
    tk = 3e-6 * kmax
    for f in range(frames):
        x = boxes[d.draw(len(boxes) - 1)]
        P = gen.points(d, x, d.int(1, 40))
        kw = {}
        Q = P
        if d.bool(3):
            Q = gen.points(d, x, d.int(1, 20))
            kw = {"query_points": Q, "N_total": len(P) + len(Q)}
        n = kw.get("N_total", len(P))
        o.compute((x.fb, P), reset=(f == 0), **kw)
        K = np.asarray(o.k_points, dtype=float).reshape(-1, 3)
        G = bmat(x)
        h = K @ np.linalg.inv(G)
        r = np.rint(h)
        mag = np.sqrt((K ** 2).sum(axis=1))
        require(np.all(np.abs(h - r) < 1e-3), "a k vector is no combination of the reciprocal vectors")
        require(np.all(r >= 0), "k vector with a negative index", indices=r.min(axis=0) if len(r) else None)
        require(len(np.unique(r, axis=0)) == len(r), "repeated k vectors")
        close("k_points", K, r @ G, rtol=1e-5, atol=tk)
        require(np.all((mag <= kmax + tk) & (mag >= kmin - tk)), "k vector out of range", magnitudes=mag, k_min=kmin, k_max=kmax)
        if not sampled:
            c = combos(x, kmax)
            m = np.sqrt(((c @ G) ** 2).sum(axis=1))
            must = c[(m > kmin + tk if kmin > 0 else m >= 0) & (m < kmax - tk)]
            have = {tuple(v) for v in r.astype(int)}
            lost = [v for v in must.astype(int) if tuple(v) not in have]
            require(not lost, "k vectors are left out", count=len(lost), of=len(must), first=lost[:1])
        A = np.exp(1j * K @ P.astype(float).T).sum(axis=1)
        B = np.exp(1j * K @ Q.astype(float).T).sum(axis=1)
        S = np.real(np.conj(A) * B) / n
        # rounding of the phases k.r
        e = 1e-5 + 1e-6 * len(P) * len(Q) / n * (2 + mag * x.scale)
        k = np.clip(np.searchsorted(edges, mag, side="right") - 1, 0, nbins - 1)
        amb = np.abs(mag[:, None] - edges[None]).min(axis=1) < tk if len(mag) else np.zeros(0, bool)
        for i in np.nonzero(amb & (mag > 0))[0]:
            j = int(np.argmin(np.abs(mag[i] - edges)))
            near[max(j - 1, 0)] = near[min(j, nbins - 1)] = True
        np.add.at(total, k, S)
        np.add.at(cnt, k, 1)
        np.add.at(err, k, e)
        want_k = 2 * np.pi / min(x.Lx, x.Ly, x.Lz)
        mk = want_k if f == 0 else min(mk, want_k)
    got = same_shape("S_k", o.S_k, (nbins,)).astype(float)
    ok = ~near
    with np.errstate(all="ignore"):
        want = np.where(cnt > 0, total / np.maximum(cnt, 1), 0)
        tol = np.where(cnt > 0, err / np.maximum(cnt, 1), 0) + 1e-6
    close("S_k", np.where(ok & (cnt > 0), got, 0), np.where(ok & (cnt > 0), want, 0), rtol=2e-4, atol=tol)
    require(np.all((got[ok & (cnt == 0)] == 0) | np.isnan(got[ok & (cnt == 0)])), "value in a bin without k vectors", got=got, counts=cnt)
    close("min_valid_k", o.min_valid_k, mk, rtol=1e-5)
    require(o.num_sampled_k_points == sampled and o.nbins == nbins, "parameters")
    d.nontrivial(np.any(cnt >= 2))


def sampling(d):
    """The number of sampled k vectors is the requested one on average."""
    import freud

    L = d.float(4, 10)
    box = freud.box.Box.cube(float(np.float32(L)))
    kmax = 2 * np.pi / L * d.float(8, 14)
    full = len(freud.diffraction.StaticStructureFactorDirect(5, kmax).compute((box, np.zeros((1, 3)))).k_points)
    m = d.int(30, full // 2)
    k = [len(freud.diffraction.StaticStructureFactorDirect(5, kmax, 0, m).compute((box, np.zeros((1, 3)))).k_points)
         for _ in range(10)]
    d.note(L=L, k_max=kmax, full=full, requested=m, got=k)
    # the grid's surface adds an excess of about 3/2 of the density near the faces of the octant
    r = np.mean(k) / m
    require(0.7 < r < 1.8, "the mean number of sampled k vectors is far off", ratio=r)
    d.nontrivial()


def rejects(d):
    import freud

    S = freud.diffraction.StaticStructureFactorDirect
    x = d.float(0.1, 10)
    for a in ((0, x), (5, 0), (5, -x), (5, x, -x), (5, x, x), (5, x, 2 * x)):
        require(raises(lambda a=a: S(*a)), "invalid parameters accepted", args=a)
    box = freud.box.Box.cube(4)
    P = np.zeros((2, 3))
    require(raises(lambda: S(5, x).compute((box, P), query_points=P), ValueError), "query_points without N_total accepted")
    require(raises(lambda: S(5, x).compute((box, P), N_total=3), ValueError), "N_total without query_points accepted")
    require(raises(lambda: S(5, x).S_k, AttributeError), "S_k before compute")
    d.nontrivial()


def printed(d):
    """Parameters of the objects and of those rebuilt from their printed form."""
    import freud

    n, x, y, m = d.int(1, 60), d.float(0.1, 20), d.choice((0.0, d.float(0, 20))), d.int(0, 10 ** 6)
    d.note(bins=n, k_max=x + y, k_min=y, num_sampled_k_points=m)
    same_parameters(lambda: freud.diffraction.StaticStructureFactorDirect(n, x + y, y, m),
                    {"nbins": n, "k_max": x + y, "k_min": y, "num_sampled_k_points": m})
    d.nontrivial()


SUBS = [Sub(definition, 2000), Sub(sampling, 100), Sub(rejects, 30), Sub(printed, 300)]
