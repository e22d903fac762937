"""C21: diffraction patterns."""

import numpy as np

from .. import gen, ref
from ..engine import Discard, Sub, close, fail, raises, require, same_shape

PROP = "C21"
RULE = ("Cubic boxes of side 1 to 30, 1 to 40 points (off-grid or on the centres of the grid cells), grids of 3 to 40, "
        "output sizes equal or not, odd and even, arbitrary view quaternions, zoom 1 to 5, peak widths 0 to 2, weights "
        "(also negative ones). Oracle: the Fourier sum over the binned points in float64 at the reported wavevectors, "
        "interpolated linearly between Fourier components where needed (exact where the wavevectors are components). "
        "Relations: S(0) = N, inversion, frame means, weight scaling. Non-trivial: at least three points and a pattern "
        "that is not constant.")


def setup(d, on_grid=False):
    L = float(np.float32(d.choice((10.0, 4.0, 1.0)) if d.bool() else d.float(1, 30)))
    b = gen.BoxSpec(L, L, L)
    n = gen.npts(d, 1, 40)
    g = d.int(3, 40)
    if on_grid:
        r = d.rng()
        F = np.stack([(r.integers(0, g, n) + 0.5) / g, (r.integers(0, g, n) + 0.5) / g, r.random(n)], axis=1)
        P = gen.from_frac(b, F)
    else:
        P = gen.points(d, b, n)
    w = None
    if d.bool():
        w = d.rng().uniform(-0.5, 2, n)
        if abs(w.sum()) < 0.1 * n:
            w = None
    d.note(L=L, points=P, grid=g, weights=w)
    return b, P, g, w


def view_frame(b, view):
    """The projected lattice vectors (columns) spanning the largest face, or None if it is a tie."""
    M = ref.qrot(view, b.M.T).T
    area = [abs(np.cross(M[:, (k + 1) % 3], M[:, (k + 2) % 3])[2]) for k in range(3)]
    o = np.argsort(area)
    if area[o[2]] - area[o[1]] < 1e-6 * area[o[2]]:
        return None
    k = int(o[2])
    return M[:2][:, [(k + 1) % 3, (k + 2) % 3]]


def components(P, view, shear, g, w, sigma):
    """|F|^2/N for the integer components -g//2 .. (g-1)//2 of the points binned on the grid."""
    N = len(P)
    w = np.ones(N) if w is None else w * N / w.sum()
    f = ref.qrot(view, P.astype(float))[:, :2] @ np.linalg.inv(shear).T + 0.5
    x = (f % 1) * g
    if np.any(np.abs(x - np.rint(x)) < 1e-6):
        raise Discard("point on the edge of a grid cell")
    i = np.floor(x).astype(int)
    m = np.arange(g) - g // 2
    A = np.exp(-2j * np.pi * np.outer(m, i[:, 0]) / g)
    B = np.exp(-2j * np.pi * np.outer(m, i[:, 1]) / g)
    F = (A * w) @ B.T
    G = np.exp(-2 * (np.pi * sigma * m / g) ** 2)
    F = F * G[:, None] * G[None, :]
    return m, np.abs(F) ** 2 / N


def interpolate(m, I, X):
    """Bilinear interpolation of I (on m x m) at X (..., 2); 0 outside; nan where it cannot be decided."""
    lo, hi = m[0], m[-1]
    x, y = X[..., 0] - lo, X[..., 1] - lo
    n = hi - lo
    e = 1e-7
    out = (x < -e) | (y < -e) | (x > n + e) | (y > n + e)
    edge = ~out & ((x < e) | (y < e) | (x > n - e) | (y > n - e))
    xc, yc = np.clip(x, 0, n), np.clip(y, 0, n)
    i = np.minimum(np.floor(xc).astype(int), max(n - 1, 0))
    j = np.minimum(np.floor(yc).astype(int), max(n - 1, 0))
    a, c = xc - i, yc - j
    i1, j1 = np.minimum(i + 1, n), np.minimum(j + 1, n)
    v = I[i, j] * (1 - a) * (1 - c) + I[i1, j] * a * (1 - c) + I[i, j1] * (1 - a) * c + I[i1, j1] * a * c
    v[out] = 0
    v[edge] = np.nan
    return v


def common_checks(dp, out, L, zoom, view, N):
    D = same_shape("diffraction", dp.diffraction, (out, out))
    kv = same_shape("k_values", dp.k_values, (out,))
    K = same_shape("k_vectors", dp.k_vectors, (out, out, 3))
    step = 2 * np.pi / (L * zoom)
    want = (np.arange(out) - out // 2) * step
    close("k_values", kv, want, rtol=1e-6, atol=1e-9)
    q = ref.qrot(view, K.reshape(-1, 3)).reshape(out, out, 3)
    W = np.stack([*np.meshgrid(want, want, indexing="ij"), np.zeros((out, out))], axis=-1)
    close("k_vectors in the frame of the view", q, W, rtol=1e-6, atol=1e-6 * step * out)
    c = out // 2
    close("zero wavevector", float(D[c, c]), float(N), rtol=1e-8, atol=0)
    require(dp.N_points == N, "N_points")
    require(np.all(D >= -1e-9), "negative intensity")
    return D, q


def exact(d):
    """Wavevectors that are Fourier components of the box: the exact Fourier sum of the points."""
    import freud

    b, P, g, w = setup(d, on_grid=True)
    dp = freud.diffraction.DiffractionPattern(grid_size=g)
    kw = {} if w is None else {"weights": w}
    if d.bool():
        kw["view_orientation"] = np.array([1.0, 0, 0, 0])
    dp.compute((b.fb, P), zoom=1, peak_width=0, **kw)
    I4 = np.array([1.0, 0, 0, 0])
    D, q = common_checks(dp, g, b.Lx, 1, I4, len(P))
    K = np.asarray(dp.k_vectors)
    ww = np.ones(len(P)) if w is None else w * len(P) / w.sum()
    F = (np.exp(-1j * K @ P.astype(float).T) * ww).sum(axis=-1)
    want = np.abs(F) ** 2 / len(P)
    bad = np.abs(D - want) > 1e-4 * want.max()
    bad[0], bad[-1], bad[:, 0], bad[:, -1] = False, False, False, False
    d.nontrivial(len(P) >= 3 and np.ptp(want) > 1e-3)
    if bad.any():
        i = tuple(np.argwhere(bad)[0])
        fail("intensity at a wavevector of the box", index=i, got=D[i], want=want[i], k=K[i])


def general(d):
    import freud

    b, P, g, w = setup(d)
    view = gen.unit_quat(d)
    view = view / np.linalg.norm(view)
    out = g if d.bool() else d.int(3, 40)
    zoom = d.choice((1, 2, 4, 1.5, 3.3))
    width = d.choice((0, 1, 0.5, 2.0))
    shear = view_frame(b, view)
    d.note(view=view, output=out, zoom=zoom, peak_width=width)
    if shear is None:
        raise Discard("two faces project to the same area")
    dp = freud.diffraction.DiffractionPattern(g, None if out == g else out)
    if d.bool(4):
        dp.compute((b.fb, P[:1]), np.array([0, 1.0, 0, 0]), zoom=3)
        dp.k_values, dp.k_vectors
    kw = {} if w is None else {"weights": w.copy()}
    dp.compute((b.fb, P), view, zoom, width, **kw)
    D, q = common_checks(dp, out, b.Lx, zoom, view, len(P))
    m, I = components(P, view, shear, g, w, width / zoom)
    # q = 2 pi shear^-T m
    X = q[..., :2] @ shear / (2 * np.pi)
    v = interpolate(m, I, X)
    ok = ~np.isnan(v)
    d.nontrivial(len(P) >= 3 and ok.sum() > 4 and np.ptp(v[ok]) > 1e-3)
    bad = ok & (np.abs(D - np.where(ok, v, 0)) > 1e-5 * I.max() + 1e-9)
    if bad.any():
        i = tuple(np.argwhere(bad)[0])
        fail(f"intensity at {int(bad.sum())} of {bad.size} pixels", index=i, got=D[i], want=v[i], k=q[i], m=X[i])
    # inversion symmetry (where both wavevectors are covered by the components)
    inside = np.all(np.abs(X) < g // 2 - (1 if g % 2 == 0 else 0) - 1e-6, axis=-1)
    o = 1 - out % 2
    S, T = D[o:, o:], inside[o:, o:]
    inv = np.abs(S - S[::-1, ::-1]) > 1e-6 * I.max() + 1e-9
    require(not np.any(inv & T & T[::-1, ::-1]), "the pattern is not symmetric under inversion")
    if w is not None:
        s = d.choice((2.0, 0.1, -1.0))
        dp.compute((b.fb, P), view, zoom, width, weights=s * w)
        close("scaled weights", dp.diffraction, D, rtol=1e-7, atol=1e-8 * I.max())
    else:
        dp.compute((b.fb, P), view, zoom, width, weights=np.full(len(P), 0.7))
        close("equal weights", dp.diffraction, D, rtol=1e-7, atol=1e-8 * I.max())


def frames(d):
    import freud

    g, out = d.int(3, 30), d.int(3, 30)
    L = round(d.float(1, 20), 3)
    zoom = d.choice((1, 2, 4))
    dp = freud.diffraction.DiffractionPattern(g, out)
    acc = 0
    n = d.int(2, 5)
    d.note(frames=n, grid=g, output=out)
    for i in range(n):
        Li = L if d.bool() else round(d.float(1, 20), 3)
        b = gen.BoxSpec(Li, Li, Li)
        P = gen.points(d, b, d.int(1, 15))
        view = gen.unit_quat(d)
        view = view / np.linalg.norm(view)
        dp.compute((b.fb, P), view, zoom, 1, reset=i == 0)
        acc = acc + np.array(freud.diffraction.DiffractionPattern(g, out).compute((b.fb, P), view, zoom, 1).diffraction)
        if d.bool():
            dp.diffraction, dp.k_vectors
        # wavevectors are those of the last frame
        K = np.asarray(dp.k_vectors)
        q = ref.qrot(view, K.reshape(-1, 3)).reshape(out, out, 3)
        want = (np.arange(out) - out // 2) * 2 * np.pi / (b.Lx * zoom)
        close("k_vectors of the last frame", q[..., 0], np.repeat(want[:, None], out, axis=1), rtol=1e-6, atol=1e-5)
        close("k_values of the last frame", dp.k_values, want, rtol=1e-6, atol=1e-8)
        require(dp.N_points == len(P), "N_points of the last frame")
    d.nontrivial(np.ptp(acc) > 1e-6)
    close("mean over frames", dp.diffraction, acc / n, rtol=1e-9, atol=1e-9)


def translated(d):
    """Views along a lattice vector: moving all points through the periodic boundaries changes nothing."""
    import freud

    b, P, g, w = setup(d, on_grid=True)
    a = d.choice((0.0, np.pi / 8, np.pi / 6, np.pi / 4)) if d.bool() else d.float(0, 2 * np.pi)
    view = np.array([np.cos(a / 2), 0, 0, np.sin(a / 2)])
    zoom, width = d.choice((1, 2, 4)), d.choice((0, 1))
    axis = d.choice((None, (1.0, 0, 0, 0), (0.5, 0.5, 0.5, 0.5), (0.5, -0.5, -0.5, -0.5)))
    if axis is not None:
        # look along another axis: permute the coordinates
        q = np.array(axis)
        P = ref.qrot(ref.qconj(q), P.astype(float)).astype(np.float32)
        view = ref.qmul(view, q)
    else:
        q = np.array([1.0, 0, 0, 0])
    k = np.array([d.draw(g - 1) / g, d.draw(g - 1) / g, d.unit()]) * b.Lx
    S = P.astype(float) + ref.qrot(ref.qconj(q), k)
    S = np.asarray(b.fb.wrap(S.astype(np.float32)))
    d.note(view=view, zoom=zoom, shift=k)
    d.nontrivial(len(P) >= 3 and a not in (0.0, np.pi / 4))
    kw = {} if w is None else {"weights": w}
    dp = freud.diffraction.DiffractionPattern(g)
    A = np.array(dp.compute((b.fb, P), view, zoom, width, **kw).diffraction)
    B = np.array(dp.compute((b.fb, S), view, zoom, width, **kw).diffraction)
    close("pattern of the translated and wrapped points", B, A, rtol=1e-6, atol=1e-7 * len(P))


def other(d):
    import freud

    d.nontrivial()
    L = d.float(2, 9)
    dp = freud.diffraction.DiffractionPattern(8)
    for a in ("diffraction", "k_values", "k_vectors", "N_points"):
        require(raises(lambda a=a: getattr(dp, a), AttributeError), f"{a} before compute")
    P = np.array([[0.1, 0.2, 0.3]], dtype=np.float32)
    for box in (freud.box.Box(L, L, 1.5 * L), freud.box.Box(L, L, L, 0.3), freud.box.Box.square(L)):
        q = P.copy()
        q[:, 2] = 0
        require(raises(lambda box=box, q=q: dp.compute((box, q)), ValueError), "a box that is not cubic was accepted",
                box=str(box))
    require(dp.grid_size == 8 and dp.output_size == 8, "sizes")


SUBS = [Sub(exact, 2000), Sub(general, 3000), Sub(translated, 2000), Sub(frames, 500), Sub(other, 50)]
