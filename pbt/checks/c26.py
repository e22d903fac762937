"""C26: mean squared displacement."""

import numpy as np

from .. import gen, ref
from ..engine import Sub, close, raises, require

PROP = "C26"
RULE = ("Trajectories of 1 to 40 frames of 1 to 20 particles (random walks, jumps, ballistic, resting, far from the "
        "origin), with and without a (2D, tilted) box and images, both modes, particles split over several calls. "
        "Oracle: the double loop over time origins in float64, wrapped trajectory with images against the unwrapped "
        "one, translation. Non-trivial: at least 3 frames and a particle that moves.")


def window(X):
    N = len(X)
    return np.array([((X[m:] - X[:N - m]) ** 2).sum(axis=2).mean(axis=0) for m in range(N)])


def direct(X):
    return ((X - X[:1]) ** 2).sum(axis=2)


def trajectory(d, dims=3, scale=1.0):
    N = d.weighted((4, lambda: d.int(1, 7)), (2, lambda: d.int(8, 40)), (1, lambda: d.int(41, 200)))()
    n = d.int(1, 20) if d.bool(3) else d.int(1, 4)
    kind = d.choice(("walk", "jumps", "ballistic", "still", "mixed"))
    d.label(kind)
    if N * n <= 14:
        step = np.array([[[d.float(-1, 1) for _ in range(3)] for _ in range(n)] for _ in range(N)])
        start = np.array([[d.float(-1, 1) for _ in range(3)] for _ in range(n)])
    else:
        g = d.rng()
        step, start = g.uniform(-1, 1, (N, n, 3)), g.uniform(-1, 1, (n, 3))
    if kind == "ballistic":
        step[:] = step[:1]
    elif kind == "still":
        step[:] = 0
    elif kind == "mixed":
        step[:, ::2] = 0
    w = d.choice((1.0, 0.1, 10.0)) * scale
    X = np.cumsum(step, axis=0) * w if kind != "jumps" else step * w
    X = X + start[None] * w + d.choice((0.0, 1.0, 100.0)) * scale
    X[..., dims:] = 0
    return np.ascontiguousarray(X.astype(np.float32)), kind


def compare(name, o, X, mode, atol=0.0):
    X = X.astype(float)
    want = window(X) if mode == "window" else direct(X)
    N, n = X.shape[:2]
    p, m = np.asarray(o.particle_msd), np.asarray(o.msd)
    disp = np.sqrt(direct(X).max(axis=0)) if N else np.zeros(n)
    t = np.asarray(atol) + 4e-6 * disp ** 2
    require(p.shape == (N, n), f"{name}: particle_msd shape", got=p.shape)
    close(f"{name}: particle_msd", p, want, rtol=1e-5, atol=t[None] + 1e-12)
    close(f"{name}: msd", m, want.mean(axis=1), rtol=1e-5, atol=np.mean(t) + 1e-12)
    close(f"{name}: msd is the mean of particle_msd", m, p.mean(axis=1), rtol=1e-5, atol=1e-10 + 1e-7 * disp.max() ** 2)


def definition(d):
    import freud

    X, kind = trajectory(d)
    mode = d.choice(("window", "direct"))
    b = gen.box(d) if d.bool(3) else None
    d.note(positions=X, mode=mode)
    o = freud.msd.MSD(mode=mode) if b is None else freud.msd.MSD(b.fb, mode)
    if d.bool(4):
        Y, _ = trajectory(d)
        o.compute(Y)
    keep = X.copy()
    o.compute(X)
    require(np.array_equal(keep, X), "positions modified")
    compare(mode, o, X, mode)
    # translation of the whole trajectory
    s = np.array([d.float(-3, 3) for _ in range(3)])
    Y = (X.astype(float) + s).astype(np.float32)
    ref_ = np.array(o.particle_msd)
    o.compute(Y)
    e = 3e-7 * (np.abs(Y).max() + np.abs(X).max())
    disp = np.sqrt(direct(X.astype(float)).max())
    close("translated trajectory", o.particle_msd, ref_, rtol=1e-5, atol=4 * e * disp + e ** 2 + 1e-6 * disp ** 2)
    d.nontrivial(len(X) >= 3 and kind != "still")


def images(d):
    import freud

    b = gen.box(d)
    X, kind = trajectory(d, b.dims, scale=min(b.plane))
    mode = d.choice(("window", "direct"))
    N, n = X.shape[:2]
    f = X.reshape(-1, 3).astype(float) @ b.Minv.T + 0.5
    im = np.floor(f).astype(int)
    im[:, b.dims:] = 0
    # images need not be those of the wrapped positions
    if d.bool(3):
        im[:, :b.dims] += d.rng().integers(-2, 3, (N * n, b.dims))
    W = (X.reshape(-1, 3).astype(float) - im @ b.M.T).astype(np.float32).reshape(N, n, 3)
    U = W.astype(float) + (im @ b.M.T).reshape(N, n, 3)
    im = im.reshape(N, n, 3).astype(d.choice((np.int32, np.int64)))
    d.note(box=b.desc(), positions=W, images=im, mode=mode)
    o = freud.msd.MSD(b.fb, mode)
    keep, keep_im = W.copy(), im.copy()
    o.compute(W, im)
    require(np.array_equal(keep, W) and np.array_equal(keep_im, im), "input modified")
    e = 4e-7 * (np.abs(U).max() + 4 * b.scale * (1 + np.abs(im).max()))
    disp = np.sqrt(direct(U).max())
    compare("images", o, U, mode, atol=6 * e * disp + 4 * e ** 2)
    p = np.array(o.particle_msd)
    o2 = freud.msd.MSD(mode=mode).compute(U.astype(np.float32))
    close("images against the unwrapped trajectory", p, np.array(o2.particle_msd), rtol=1e-5,
          atol=6 * e * disp + 4 * e ** 2 + 1e-6 * disp ** 2)
    # moving a particle by lattice vectors with its image
    k = d.rng().integers(-2, 3, (1, n, 3))
    k[..., b.dims:] = 0
    o.compute(W, (im + k).astype(np.int32))
    e2 = e + 4e-7 * b.scale * 4
    close("common image shift", o.particle_msd, p, rtol=1e-5, atol=8 * e2 * disp + 8 * e2 ** 2 + 2e-6 * disp ** 2)
    d.nontrivial(N >= 3 and kind != "still" and np.any(im))


def accumulate(d):
    import freud

    X, kind = trajectory(d)
    Y, _ = trajectory(d)
    N = len(X)
    parts = [X]
    g = d.rng()
    for _ in range(d.int(1, 3)):
        n = d.int(1, 4)
        parts.append(g.uniform(-3, 3, (N, n, 3)).astype(np.float32))
    mode = d.choice(("window", "direct"))
    o = freud.msd.MSD(mode=mode)
    if d.bool():
        o.compute(Y)
    for i, p in enumerate(parts):
        o.compute(p, reset=i == 0)
        if d.bool(3):
            _ = o.msd
    al = np.concatenate(parts, axis=1)
    compare("accumulated", o, al, mode, atol=4e-6 * direct(al.astype(float)).max())
    one = freud.msd.MSD(mode=mode).compute(al)
    close("one call", o.particle_msd, np.array(one.particle_msd), rtol=1e-6, atol=1e-9 + 1e-9 * np.abs(al).max() ** 2)
    close("one call: msd", o.msd, np.array(one.msd), rtol=1e-6, atol=1e-9 + 1e-9 * np.abs(al).max() ** 2)
    # a particle's value does not depend on the others
    k = d.perm(al.shape[1])
    two = freud.msd.MSD(mode=mode).compute(np.ascontiguousarray(al[:, k]))
    close("permuted particles", two.particle_msd, np.array(one.particle_msd)[:, k], rtol=1e-6,
          atol=1e-9 + 1e-9 * np.abs(al).max() ** 2)
    d.nontrivial(N >= 3)


def rejects(d):
    import freud

    X, _ = trajectory(d)
    require(raises(lambda: freud.msd.MSD(mode=d.choice(("Window", "", "windowed")))), "unknown mode accepted")
    o = freud.msd.MSD(gen.box(d).fb)
    require(raises(lambda: o.msd), "msd readable before compute")
    require(raises(lambda: o.particle_msd), "particle_msd readable before compute")
    require(raises(lambda: o.compute(X[0])), "array of two dimensions accepted")
    require(raises(lambda: o.compute(X[:, :, :2])), "wrong shape accepted")
    im = np.zeros((len(X) + 1,) + X.shape[1:], dtype=np.int32)
    require(raises(lambda: o.compute(X, im)), "images of another shape accepted")
    d.nontrivial()


SUBS = [Sub(definition, 700), Sub(images, 500), Sub(accumulate, 400), Sub(rejects, 30)]
