"""C10: periodic buffers."""

import numpy as np

from .. import gen, ref
from ..engine import Sub, close, equal, raises, require, same_shape


PROP = "C10"
RULE = ("Fully periodic boxes of all shapes, 1 to 40 points, scalar and per-axis buffers from 0 to 2.6 box lengths or 0 "
        "to 3 images, with and without the input points, systems as pairs or search structures. Oracle: enumeration of "
        "lattice offsets in float64, with offsets within rounding of the expanded box's faces left open. Non-trivial: "
        "at least two replicas expected and one offset rejected, or at least one axis replicated by images.")


def system_of(d, b, P):
    import freud

    k = d.draw(2)
    if k == 0:
        return (b.fb, P)
    return freud.locality.AABBQuery(b.fb, P) if k == 1 else freud.locality.LinkCell(b.fb, P)


def check_box(name, got, L, b):
    require(got.is2D == b.is2D, f"{name}: dimensions of the buffer box")
    w = np.array(L, dtype=float)
    if b.is2D:
        w[2] = 0
    close(f"{name}: lengths of the buffer box", np.asarray(got.L), w, rtol=2e-6, atol=1e-12)
    close(f"{name}: tilts of the buffer box", np.array([got.xy, got.xz, got.yz]),
          np.array([b.xy, b.xz, b.yz]) if not b.is2D else np.array([b.xy, got.xz, got.yz]), rtol=0, atol=1e-6)
    require(np.array_equal(np.asarray(got.periodic), np.asarray(b.fb.periodic)), f"{name}: periodicity")


def offsets(name, b, P, B, ids):
    """Integer lattice offsets of the buffer points, checked to be integers."""
    if len(B) == 0:
        return np.zeros((0, 3), dtype=int)
    require(np.all((ids >= 0) & (ids < len(P))), f"{name}: id out of range")
    delta = B.astype(float) - P[ids].astype(float)
    f = ref.frac(b, delta)
    if b.is2D:
        require(np.all(B[:, 2] == 0), f"{name}: z is not zero in 2D")
        f[:, 2] = 0
    n = np.round(f)
    err = np.abs((f - n) @ b.M.T).max()
    t = 4e-6 * b.scale * (1 + np.abs(n).max())
    require(err <= t, f"{name}: a buffer point is not its original plus lattice vectors", error=err)
    return n.astype(int)


def by_distance(d):
    b = gen.box(d)
    n = d.int(1, 6) if d.bool() else d.int(1, 40)
    P = gen.points(d, b, n)
    L = np.array([b.Lx, b.Ly, b.Lz])
    scalar = d.bool()
    big = n <= 6

    def draw():
        if d.bool(8):
            return 0.0
        if d.bool(5):
            return d.choice((0.5, 1.0, 1.5, 2.0, 0.25))
        return d.float(0, 2.6 if big else 1.2)

    rel = [draw()] * 3 if scalar else [draw() for _ in range(3)]
    if scalar:
        v = float(np.float32(rel[0] * (L[:b.dims].min())))
        buf, vec = v, np.array([v] * 3)
    else:
        vec = np.array([float(np.float32(rel[k] * (L[k] if L[k] else L[0]))) for k in range(3)])
        buf = d.choice((list, tuple, np.array))(vec.tolist())
    inc = d.bool()
    form = d.draw(2)
    d.note(box=b.desc(), points=P, buffer=vec, include=inc)
    d.label("2D" if b.is2D else "3D", b.kind, "scalar" if scalar else "vector", "include" if inc else "exclude")
    import freud

    pb = freud.locality.PeriodicBuffer()
    if d.bool(3):
        pb.compute((b.fb, P), 0.3 * L[0], include_input_points=True)
        _ = pb.buffer_points
    sy = system_of(d, b, P)
    if form == 0:
        r = pb.compute(sy, buf, include_input_points=inc) if inc else pb.compute(sy, buf)
    elif form == 1:
        r = pb.compute(sy, buf, False, inc)
    else:
        r = pb.compute(system=sy, buffer=buf, images=False, include_input_points=inc)
    require(r is pb, "compute does not return the object")
    B, ids = np.asarray(pb.buffer_points), np.asarray(pb.buffer_ids).astype(int)
    same_shape("buffer_points", B, (len(ids), 3))
    check_box("distance", pb.buffer_box, L + 2 * vec, b)
    off = offsets("distance", b, P, B, ids)
    got = {}
    for k in range(len(ids)):
        key = (int(ids[k]), *off[k].tolist())
        require(key not in got, "a replica is reported twice", replica=key)
        got[key] = k
    # expected offsets per axis: the fractional coordinate (in units of the box) lies in [-v/L, 1 + v/L)
    F = ref.frac(b, P) + 0.5
    must_n, rejected = 0, 0
    tol = 4e-6 * (1 + np.array([np.abs(b.M[k]).sum() for k in range(3)]).max() * np.abs(b.Minv).sum(axis=1))
    for p in range(n):
        sure, may = [], []
        for k in range(b.dims):
            e = vec[k] / L[k]
            rng = np.arange(-4, 5) if big or True else None
            x = F[p, k] + rng
            t = tol[k] * (1 + np.abs(rng))
            sure.append(rng[(x >= -e + t) & (x < 1 + e - t)])
            may.append(rng[(x >= -e - t) & (x < 1 + e + t)])
        if b.is2D:
            sure.append(np.array([0]))
            may.append(np.array([0]))
        S = {(p, int(i), int(j), int(k)) for i in sure[0] for j in sure[1] for k in sure[2]}
        Y = {(p, int(i), int(j), int(k)) for i in may[0] for j in may[1] for k in may[2]}
        if not inc:
            S.discard((p, 0, 0, 0))
            Y.discard((p, 0, 0, 0))
        G = {x for x in got if x[0] == p}
        require(S <= G, "a replica in range is missing", missing=sorted(S - G)[:3], buffer=vec, point=P[p])
        require(G <= Y, "a replica out of range is reported", extra=sorted(G - Y)[:3], buffer=vec, point=P[p])
        must_n += len(S)
        rejected += (3 ** b.dims > len(S))
    d.nontrivial(must_n >= 2 and rejected > 0)


def by_images(d):
    b = gen.box(d)
    n = d.int(1, 5) if d.bool() else d.int(1, 30)
    P = gen.points(d, b, n)
    L = np.array([b.Lx, b.Ly, b.Lz])
    if d.bool():
        k = d.int(0, 3)
        buf, im = (k if d.bool() else float(k)), np.array([k] * 3)
    else:
        im = np.array([d.int(0, 3) for _ in range(3)])
        buf = d.choice((list, tuple, np.array))(im.tolist())
    inc = d.bool()
    d.note(box=b.desc(), points=P, images=im, include=inc)
    d.label("2D" if b.is2D else "3D", b.kind, "include" if inc else "exclude")
    import freud

    pb = freud.locality.PeriodicBuffer()
    pb.compute(system_of(d, b, P), buf, images=True, include_input_points=inc)
    B, ids = np.asarray(pb.buffer_points), np.asarray(pb.buffer_ids).astype(int)
    same_shape("buffer_points", B, (len(ids), 3))
    m = 1 + im
    if b.is2D:
        m[2] = 1
    check_box("images", pb.buffer_box, L * (1 + im), b)
    total = int(np.prod(m))
    d.nontrivial(total > 1)
    equal("number of replicas of each point", np.bincount(ids, minlength=n), np.full(n, total - (0 if inc else 1)))
    off = offsets("images", b, P, B, ids)
    # inside of the buffer box
    f = ref.frac(b, B) / m if len(B) else np.zeros((0, 3))
    t = 1e-5 * (1 + np.abs(b.Minv).sum(axis=1).max() * b.scale)
    require(np.all(np.abs(f[:, :b.dims]) <= 0.5 + t), "a replica lies outside of the buffer box",
            got=np.abs(f).max() if len(f) else 0)
    seen = set()
    for k in range(len(ids)):
        key = (int(ids[k]), *(off[k] % m).tolist())
        require(key not in seen, "a replica is reported twice (up to the buffer box)", replica=key)
        seen.add(key)
    if not inc:
        require(not any(x[1:] == (0, 0, 0) for x in seen), "an input point is reported without being requested")
    # the buffered system is the same crystal: neighbor counts within a cutoff agree
    if inc and d.bool(3) and len(B) <= 800:
        r = gen.rmax(d, b)
        q = {"r_max": r, "mode": "ball", "exclude_ii": True}
        bb = pb.buffer_box
        W = np.asarray(bb.wrap(B))
        t = ref.tol(b) * 4
        nl0 = freud.locality.AABBQuery(b.fb, P).query(P, q).toNeighborList()
        nl1 = freud.locality.AABBQuery(bb, W).query(W, q).toNeighborList()
        I, J, V, D = ref.pairs(b, P, P)
        if not np.any(np.abs(D[I != J] - r) < t):
            c0 = np.asarray(nl0.neighbor_counts)
            equal("neighbor counts in the buffered system", nl1.neighbor_counts, c0[ids])


def rejects(d):
    import freud

    b = gen.box(d)
    P = gen.points(d, b, d.int(1, 5))
    pb = freud.locality.PeriodicBuffer()
    bad = d.choice((-1.0, [1.0, -0.5, 1.0], [1.0, 2.0], [1.0, 1.0, 1.0, 1.0], [0.5, 0.5, -1e-3]))
    im = d.bool()
    d.note(bad=bad, images=im)
    d.nontrivial()
    require(raises(lambda: pb.compute((b.fb, P), bad, images=im)), "invalid buffer accepted", buffer=bad)
    require(raises(lambda: pb.buffer_points, AttributeError), "results available after a failed compute")
    pb.compute((b.fb, P), 0.1, include_input_points=True)
    require(set(np.asarray(pb.buffer_ids).tolist()) == set(range(len(P))), "compute after a failure")


SUBS = [Sub(by_distance, 4000), Sub(by_images, 4000), Sub(rejects, 400)]
