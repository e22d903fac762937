"""C27: generated lattices and random systems."""

import numpy as np

from .. import gen, ref
from ..engine import Sub, close, equal, fail, raises, require

PROP = "C27"
RULE = ("Random unit cells (2D and 3D, tilted, 1 to 8 basis points including duplicates modulo the cell and "
        "coordinates of 0 and 1), replica counts 1 to 6 per axis, scales, noise and seeds; the predefined cells; "
        "random systems. Oracle: cell coordinates of every point against the basis, each cell exactly once and in "
        "the documented order, the size of the box, coordination of the predefined crystals, a closed box, "
        "repetition with the same seed and the spread of the noise. Non-trivial: more than one replica.")


def replicas(d, b, hi=5):
    if d.bool(4):
        n = d.int(1, hi if b.is2D else 4)
        return n, (n, n, 1 if b.is2D else n)
    t = tuple(d.int(1, hi) for _ in range(3))
    if b.is2D:
        t = t[:2] + (1,)
    elif np.prod(t) > 80:
        t = (t[0], min(t[1], 3), min(t[2], 2))
    kind = d.choice((tuple, list, np.array))
    return kind(t), t


def inside(name, b, P, tol):
    f = ref.frac(b, P)
    require(np.all(np.abs(f[:, :b.dims]) <= 0.5 + tol), f"{name}: point outside of the box", frac=f)
    require(np.all(np.isfinite(P)), f"{name}: not finite")
    if b.is2D:
        require(np.all(P[:, 2] == 0), f"{name}: z is not 0 in 2D", z=np.abs(P[:, 2]).max() if len(P) else 0)


def lattice_matrix(b, t, s):
    return b.M * np.array(t, dtype=float)[None] * s


def check_box(name, box, b, t, s):
    want = lattice_matrix(b, t, s)
    got = np.array(box.to_matrix(), dtype=float)
    require(box.is2D == b.is2D, f"{name}: dimensions of the box")
    k = b.dims
    close(f"{name}: box matrix", got[:k, :k], want[:k, :k], rtol=1e-5, atol=1e-5 * np.abs(want[:k, :k]).max())


def check_crystal(name, box, P, b, F, t, s, ordered=True):
    """Every point is a basis point plus lattice vectors, every cell once per basis point."""
    t = np.array(t)
    nrep = int(np.prod(t))
    n = nrep * len(F)
    P = np.asarray(P, dtype=float)
    require(P.shape == (n, 3), f"{name}: number of points", got=P.shape, want=n)
    check_box(name, box, b, t, s)
    dims = b.dims
    M = b.M * s
    if b.is2D:
        M = M.copy()
        M[2, 2] = 1
    f = P @ np.linalg.inv(M).T + t / 2
    f[:, dims:] = 0
    tol = 4e-6 * (1 + np.abs(b.M).sum() * t.max() / b.plane.min()) * 4
    F = np.asarray(F, dtype=float)
    Fm = F.copy()
    Fm[:, dims:] = 0
    big = f / t
    big[:, dims:] = 0
    require(np.all((big[:, :dims] >= -tol) & (big[:, :dims] <= 1 + tol)), f"{name}: point outside of the box")
    used = np.zeros(n, dtype=bool)
    for i, x in enumerate(Fm):
        dev = f - x
        cell = np.rint(dev)
        cell[:, dims:] = 0
        hit = np.all(np.abs(dev - cell) < tol, axis=1)
        if ordered:
            blk = slice(i * nrep, (i + 1) * nrep)
            if not hit[blk].all():
                k = i * nrep + int(np.argmin(hit[blk]))
                fail(f"{name}: point is no replica of its basis point", index=k, basis=x, cell_coordinates=f[k])
            c = (cell[blk] % t[None]).astype(int)[:, :dims]
            u = np.unique(c, axis=0)
            require(len(u) == nrep, f"{name}: basis point missing in a cell", basis=x, cells=len(u), want=nrep)
        used |= hit
    require(used.all(), f"{name}: point which is no replica", points=P[~used])


def cell(d):
    b = gen.box(d, wide=True)
    n = d.int(1, 8)
    F = np.array([[d.choice((0.0, 0.25, 0.5, 1 / 3, 1.0)) if d.bool() else d.float(0, 1) for _ in range(3)]
                  for _ in range(n)])
    if b.is2D:
        F[:, 2] = 0
    return b, F


def crystal(d):
    import freud

    b, F = cell(d)
    arg, t = replicas(d, b)
    s = d.choice((1.0, 2.0, 0.5)) if d.bool() else d.float(0.2, 4)
    d.note(box=b.desc(), basis=F, replicas=list(t), scale=s)
    uc = freud.data.UnitCell(b.fb, F if d.bool() else F.tolist())
    require(uc.dimensions == b.dims, "dimensions")
    close("lattice vectors", np.array([uc.a1, uc.a2, uc.a3]).T, np.asarray(uc.lattice_vectors), rtol=0, atol=0)
    k = b.dims
    close("lattice_vectors", np.asarray(uc.lattice_vectors)[:k, :k], b.M[:k, :k], rtol=1e-6, atol=1e-6 * b.scale)
    box, P = uc.generate_system(arg, scale=s) if s != 1.0 or d.bool() else uc.generate_system(arg)
    check_crystal("crystal", box, P, b, F, t, s)
    bb = gen.BoxSpec(*[float(x) for x in (box.Lx, box.Ly, box.Lz, box.xy, box.xz, box.yz)], is2D=box.is2D)
    inside("crystal", bb, P, 2e-6 * bb.scale / bb.plane.min())
    # the unit cell can be used again
    box2, P2 = uc.generate_system(arg, scale=s)
    equal("repeated", P2, P)
    require(box2 == box, "repeated: box")
    equal("basis unchanged", np.asarray(uc.basis_positions), F)
    d.nontrivial(np.prod(t) > 1)


def noise(d):
    import freud

    b, F = cell(d)
    arg, t = replicas(d, b, 6)
    s = d.choice((1.0, 2.0, 0.5))
    sig = d.choice((0.01, 0.05, 0.2)) * b.plane.min() * s
    seed = d.draw(2 ** 30)
    d.note(box=b.desc(), basis=F, replicas=list(t), scale=s, sigma=sig, seed=seed)
    uc = freud.data.UnitCell(b.fb, F)
    kw = dict(scale=s, sigma_noise=sig, seed=seed)
    box, P = uc.generate_system(arg, **kw)
    box2, P2 = uc.generate_system(arg, **kw)
    equal("same seed", P2, P)
    require(box2 == box, "same seed: box")
    box0, P0 = uc.generate_system(arg, scale=s)
    require(box0 == box, "box with noise")
    bb = gen.BoxSpec(*[float(x) for x in (box.Lx, box.Ly, box.Lz, box.xy, box.xz, box.yz)], is2D=box.is2D)
    inside("noise", bb, P, 2e-6 * bb.scale / bb.plane.min())
    require(P.shape == P0.shape, "noise: number of points")
    # displacement modulo lattice vectors of the whole box
    v = ref.wrap(bb, P.astype(float) - P0.astype(float))[:, :b.dims]
    m = ref.min_image(bb, P.astype(float) - P0.astype(float))
    require(np.all(m < 9 * sig + ref.tol(bb)), "noise too large", got=m.max(), sigma=sig)
    require(np.any(m > 1e-3 * sig), "no noise")
    # the spread, where the displacements are not folded back
    if len(P) >= 30 and 9 * sig < bb.rhalf:
        x = m ** 2 / sig ** 2 / b.dims
        e = np.sqrt(2 / (b.dims * len(P)))
        require(abs(x.mean() - 1) < 8 * e, "variance of the noise", got=x.mean(), want=1, tol=8 * e)
        require(np.all(np.abs(v.mean(axis=0)) < 8 * sig / np.sqrt(len(P)) + ref.tol(bb)), "mean of the noise",
                got=v.mean(axis=0))
        require(np.all(np.abs((v ** 2).mean(axis=0) / sig ** 2 - 1) < 8 * np.sqrt(2 / len(P))),
                "noise along an axis", got=(v ** 2).mean(axis=0) / sig ** 2)
    if d.bool(3):
        _, P3 = uc.generate_system(arg, scale=s, sigma_noise=sig, seed=seed + 1)
        require(not np.array_equal(P3, P), "another seed gives the same noise")
    d.nontrivial(np.prod(t) > 1)


# name, arguments, number of nearest neighbors, their distance, points per cell
PRESETS = (("sc", {}, 6, 1.0, 1), ("bcc", {}, 8, np.sqrt(0.75), 2), ("fcc", {}, 12, np.sqrt(0.5), 4),
           ("hcp", {}, 12, 1.0, 2), ("square", {}, 4, 1.0, 1), ("hex", {}, 6, 1.0, 2),
           ("graphene", {}, 3, 1 / np.sqrt(3), 4))


def presets(d):
    import freud

    name, kw, z, r, nb = d.choice(PRESETS)
    d.label(name)
    uc = getattr(freud.data.UnitCell, name)(**kw)
    two = uc.box.is2D
    require(two == (name in ("square", "hex", "graphene")), "dimensions", name=name)
    lo = 4 if two else 3
    t = tuple(d.int(lo, lo + 2) for _ in range(2)) + (1 if two else d.int(lo, lo + 1),)
    s = d.choice((1.0, 2.0, 0.5)) if d.bool() else d.float(0.2, 4)
    d.note(name=name, replicas=list(t), scale=s)
    box, P = uc.generate_system(t, scale=s)
    require(len(P) == nb * np.prod(t), f"{name}: number of points", got=len(P), want=nb * np.prod(t))
    bb = gen.BoxSpec(*[float(x) for x in (box.Lx, box.Ly, box.Lz, box.xy, box.xz, box.yz)], is2D=box.is2D)
    D = ref.min_image(bb, (P[None].astype(float) - P[:, None].astype(float)).reshape(-1, 3), shells=1)
    D = D.reshape(len(P), len(P)) / s
    np.fill_diagonal(D, np.inf)
    close(f"{name}: nearest neighbor distance", D.min(axis=1), np.full(len(P), r), rtol=1e-4, atol=1e-5)
    equal(f"{name}: coordination", (D < r * 1.05).sum(axis=1), np.full(len(P), z))
    d.nontrivial()


def oblique(d):
    import freud

    if d.bool():
        a = d.float(0.3, 3)
        c = d.bool()
        uc = freud.data.UnitCell.rectangular(a, c)
        th = 90.0
        F = [[0, 0, 0]] + ([[0.5, 0.5, 0]] if c else [])
    else:
        a, th = d.float(0.3, 3), d.float(25, 155)
        uc = freud.data.UnitCell.oblique(a, th)
        F = [[0, 0, 0]]
    d.note(aspect=a, theta=th)
    require(uc.dimensions == 2, "dimensions")
    a1, a2 = np.asarray(uc.a1, dtype=float), np.asarray(uc.a2, dtype=float)
    close("length of a1", np.linalg.norm(a1), 1.0, rtol=1e-4)
    close("aspect", np.linalg.norm(a2), a, rtol=1e-4)
    close("angle", np.degrees(np.arccos(a1 @ a2 / np.linalg.norm(a1) / np.linalg.norm(a2))), th, rtol=0, atol=0.05)
    bx = uc.box
    b = gen.BoxSpec(bx.Lx, bx.Ly, 0, bx.xy, is2D=True)
    t = (d.int(1, 5), d.int(1, 5), 1)
    box, P = uc.generate_system(t)
    check_crystal("oblique", box, P, b, np.array(F, dtype=float), t, 1.0)
    d.nontrivial(np.prod(t) > 1)


def rejects(d):
    import freud

    b, F = cell(d)
    uc = freud.data.UnitCell(b.fb, F)
    bad = d.choice((0, -1, 1.5, (1, 0, 1), (2, 2), (1.5, 1, 1), (2, -1, 1)))
    require(raises(lambda: uc.generate_system(bad)), "invalid replicas accepted", replicas=bad)
    if b.is2D:
        require(raises(lambda: uc.generate_system((1, 1, 2))), "replicas along z of a 2D cell accepted")
    d.nontrivial()


def random_system(d):
    import freud

    L = d.choice((1.0, 10.0)) if d.bool(3) else d.float(0.1, 100)
    n = d.int(1, 300) if d.bool(3) else d.int(1, 12)
    two = d.bool()
    seed = d.draw(2 ** 31 - 1)
    d.note(L=L, n=n, is2D=two, seed=seed)
    kw = dict(is2D=two) if two or d.bool() else {}
    box, P = freud.data.make_random_system(L, n, seed=seed, **kw)
    require(P.shape == (n, 3), "number of points", got=P.shape)
    require(box.is2D == two, "dimensions")
    ls = [box.Lx, box.Ly] + ([] if two else [box.Lz])
    close("box lengths", ls, [L] * len(ls), rtol=1e-6)
    equal("tilt", [box.xy, box.xz, box.yz], [0, 0, 0])
    b = gen.BoxSpec(L, L, 0 if two else L, is2D=two)
    inside("random system", b, P, 2e-6)
    box2, P2 = freud.data.make_random_system(L, n, seed=seed, **kw)
    equal("same seed", P2, P)
    require(box2 == box, "same seed: box")
    _, P3 = freud.data.make_random_system(L, n, seed=(seed + 1) % 2 ** 31, **kw)
    require(not np.array_equal(P, P3), "another seed gives the same points")
    if n >= 50:
        x = P[:, :b.dims].astype(float) / L
        e = np.sqrt(1 / 12 / n)
        require(np.all(np.abs(x.mean(axis=0)) < 8 * e), "mean of the random points", got=x.mean(axis=0))
        require(np.all(np.abs((x ** 2).mean(axis=0) - 1 / 12) < 8 * np.sqrt(1 / 180 / n)),
                "variance of the random points", got=(x ** 2).mean(axis=0))
    d.nontrivial(n > 1)


SUBS = [Sub(crystal, 600), Sub(noise, 300), Sub(presets, 100), Sub(oblique, 150), Sub(rejects, 60),
        Sub(random_system, 300)]
