"""C01: wrapping, fractional coordinates and images."""

import numpy as np

from .. import gen, ref
from ..engine import Sub, close, equal, fail, require, same_shape

PROP = "C01"
RULE = ("Boxes are drawn over 2D/3D, cubic/orthorhombic/tilted (tilts up to 1.7), lengths 0.2 to 3200 and all eight "
        "periodicities; vectors are drawn as lattice combinations of cell positions (uniform, on faces, corners, "
        "duplicates) over up to +-6 images, as float32. A case is non-trivial if at least one vector lies outside "
        "the primary cell (sub-checks with images) or there are at least two distinct vectors.")


def vectors(d, b, n, span=3, style=None):
    style = style or d.weighted((3, "uniform"), (2, "faces"), (2, "lattice"), (1, "cluster"))
    F = gen.frac_points(d, n, b.dims, style)
    img = np.array([[d.int(-span, span) for _ in range(3)] for _ in range(n)], dtype=float).reshape(n, 3) \
        if n <= 10 else d.rng().integers(-span, span + 1, size=(n, 3)).astype(float)
    img[:, b.dims:] = 0
    F = np.where(np.arange(3) < b.dims, F, 0.5)
    r = (F - 0.5 + img) @ b.M.T
    if b.is2D:
        r[:, 2] = 0
    return r.astype(np.float32), F, img


def anybox(d, periodic=True):
    b = gen.box(d)
    if periodic and d.bool(2):
        b = gen.BoxSpec(b.Lx, b.Ly, b.Lz, b.xy, b.xz, b.yz, b.is2D, (d.bool(), d.bool(), d.bool()), b.kind)
    d.label("2D" if b.is2D else "3D", b.kind, "".join("p" if p else "n" for p in b.periodic))
    return b


def call(d, fn, V, *rest):
    """Calls a box method in one of its documented forms: array, single vector, out=."""
    form = d.weighted((4, "array"), (2, "out"), (1, "single"), (1, "inplace"), (1, "list"))
    d.label("form:" + form)
    if form == "out":
        out = np.full((len(V), 3), 77.0, dtype=np.float32)
        r = fn(V, *rest, out=out)
        require(r is out or np.shares_memory(np.asarray(r), out), "the returned array is not out")
        return out
    if form == "inplace":
        W = V.copy()
        return np.asarray(fn(W, *rest, out=W))
    if form == "single":
        return np.array([fn(V[i], *[np.asarray(x)[i] for x in rest]) for i in range(len(V))]).reshape(len(V), 3)
    if form == "list":
        return np.asarray(fn(V.tolist(), *rest))
    return np.asarray(fn(V, *rest))


def tolv(b, V):
    # float32 relative rounding acts on the magnitudes of the vector, the lattice and their tilted combination
    m = np.abs(V).max() if len(V) else 0.0
    return 4e-7 * (m * 3 * (1 + abs(b.xy)) * (1 + abs(b.xz) + abs(b.yz)) + b.scale) + 1e-12


def wrap(d):
    b = anybox(d)
    n = d.int(1, 8)
    V, F, img = vectors(d, b, n, d.choice((1, 3, 6)))
    d.note(box=b.desc(), vectors=V)
    d.nontrivial(np.any(img))
    V0 = V.copy()
    W = call(d, b.fb.wrap, V)
    equal("input after wrap", V, V0)
    W = same_shape("wrap", W, V.shape)
    require(W.dtype == np.float32, "wrap: dtype", got=str(W.dtype))
    t = tolv(b, V)
    # (a) only lattice vectors of periodic axes are added
    k = ref.frac(b, W.astype(float) - V.astype(float))
    kr = np.round(k)
    close("wrap moves by lattice vectors", W.astype(float), V + kr @ b.M.T, rtol=0, atol=t)
    for a in range(3):
        if not b.periodic[a] or (a == 2 and b.is2D):
            require(not np.any(kr[:, a]), "wrap moved along a non-periodic axis", axis=a)
    # (b) lands in the box along periodic axes
    f = ref.frac(b, W) + 0.5
    ft = t * np.abs(b.Minv).sum() + 1e-6
    for a in range(b.dims):
        if b.periodic[a]:
            require(np.all((f[:, a] > -ft) & (f[:, a] < 1 + ft)), "wrap: outside the box", frac=f)
    # (c) idempotent, up to float32 rounding across a face
    W2 = np.asarray(b.fb.wrap(W))
    k2 = ref.frac(b, W2.astype(float) - W)
    close("wrap twice (modulo the lattice)", W2, W + np.round(k2) @ b.M.T, rtol=0, atol=t)
    inner = np.all((f[:, :b.dims] > 10 * ft) & (f[:, :b.dims] < 1 - 10 * ft), axis=1)
    close("wrap twice", W2[inner], W[inner], rtol=0, atol=t)
    # (d) reference
    R = ref.wrap(b, V)
    dk = ref.frac(b, R - W)
    close("wrap (modulo the lattice)", R - np.round(dk) @ b.M.T, W, rtol=0, atol=t)
    if b.is2D:
        require(np.all(W[:, 2] == 0), "wrap: z is not zero in a 2D box", got=W)


def fractional(d):
    b = anybox(d)
    n = d.int(1, 8)
    V, F, img = vectors(d, b, n, d.choice((0, 2)))
    d.note(box=b.desc(), vectors=V)
    d.nontrivial(len(np.unique(V, axis=0)) > 1)
    t = tolv(b, V)
    G = same_shape("make_fractional", call(d, b.fb.make_fractional, V), V.shape)
    want = ref.frac(b, V) + 0.5
    if b.is2D:
        want[:, 2] = 0.0
    ft = t * np.abs(b.Minv[:b.dims, :b.dims]).sum() + 1e-6
    close("make_fractional", G, want, rtol=1e-6, atol=ft)
    A = same_shape("make_absolute", call(d, b.fb.make_absolute, G), V.shape)
    close("make_absolute(make_fractional(v))", A, V, rtol=0, atol=2 * t)
    # an arbitrary fractional coordinate
    H = np.array([[d.float(-2, 3) for _ in range(3)] for _ in range(n)], dtype=np.float32)
    if b.is2D:
        H[:, 2] = 0.5
    B = same_shape("make_absolute", call(d, b.fb.make_absolute, H), V.shape)
    wantB = (H.astype(float) - 0.5) @ b.M.T
    if b.is2D:
        wantB[:, 2] = 0
    close("make_absolute", B, wantB, rtol=1e-6, atol=4e-6 * b.scale * (1 + abs(b.xy)) * (1 + abs(b.xz) + abs(b.yz)))
    # the affine map is given by the box vectors
    for a in range(b.dims):
        close(f"box vector {a}", b.fb.get_box_vector(a), b.M[:, a], rtol=1e-6, atol=1e-6 * b.scale)
        close(f"v{a + 1}", getattr(b.fb, f"v{a + 1}"), b.M[:, a], rtol=1e-6, atol=1e-6 * b.scale)


def images(d):
    b = anybox(d)
    n = d.int(1, 8)
    V, F, img = vectors(d, b, n, d.choice((1, 3, 6)))
    d.note(box=b.desc(), vectors=V)
    d.nontrivial(np.any(img))
    t = tolv(b, V)
    ft = t * np.abs(b.Minv[:b.dims, :b.dims]).sum() + 2e-6
    form = d.bool()
    got = np.asarray(b.fb.get_images(V) if not form else [b.fb.get_images(v) for v in V])
    same_shape("get_images", got, V.shape)
    require(got.dtype.kind == "i", "get_images: dtype")
    f = ref.frac(b, V) + 0.5
    lo = np.floor(f - ft)
    hi = np.floor(f + ft)
    lo[:, b.dims:] = hi[:, b.dims:] = 0
    require(np.all((got >= lo) & (got <= hi)), "get_images", got=got, want=lo, frac=f)
    # containment
    c = np.asarray(b.fb.contains(V))
    same_shape("contains", c, (n,))
    sure_in = np.all((lo == 0) & (hi == 0), axis=1)
    sure_out = np.any(((lo > 0) | (hi < 0)), axis=1)
    require(np.all(c[sure_in]), "contains: false for an inside point", frac=f)
    require(not np.any(c[sure_out]), "contains: true for an outside point", frac=f)
    equal("contains and get_images", c, np.all(got == 0, axis=1))
    # unwrap is the lattice translation
    k = np.array([[d.int(-5, 5) for _ in range(3)] for _ in range(n)], dtype=np.int32)
    k[:, b.dims:] = 0
    U = np.asarray(call(d, b.fb.unwrap, V, k))
    want = V + k @ b.M.T
    tu = t + 6e-7 * 6 * b.scale * 3
    close("unwrap", U, want, rtol=1e-6, atol=tu)
    if all(b.periodic) or (b.is2D and all(b.periodic[:2])):
        W = np.asarray(b.fb.wrap(V))
        back = np.asarray(b.fb.unwrap(W, got))
        # wrap and get_images both round at faces; they have to agree with each other
        close("unwrap(wrap(v), get_images(v))", back, V, rtol=1e-6, atol=tu)
    # broadcasting one image over several vectors, or one vector over several images
    one = np.asarray(b.fb.unwrap(V, k[:1]))
    close("unwrap with one image", one, V + k[:1] @ b.M.T, rtol=1e-6, atol=tu)


def exact(d):
    """Dyadic coordinates in boxes with power-of-two lengths: no rounding at all, faces included."""
    is2D = d.bool()
    L = [float(d.choice((8, 4, 16, 2))) for _ in range(3)]
    if is2D:
        L[2] = 0.0
    t = [0.0, 0.0, 0.0]
    if d.bool():
        t = [d.choice((0.0, 0.5, -0.5, 1.0, -1.0)) for _ in range(3)]
        if is2D:
            t[1:] = [0.0, 0.0]
    b = gen.BoxSpec(*L, *t, is2D=is2D, kind="exact")
    n = d.int(1, 8)
    m = d.choice((4, 8))
    F = np.array([[d.int(-3 * m, 3 * m) / m for _ in range(3)] for _ in range(n)])
    F[:, b.dims:] = 0.5
    V = ((F - 0.5) @ b.M.T)
    if is2D:
        V[:, 2] = 0
    V = V.astype(np.float32)
    d.note(box=b.desc(), vectors=V)
    k = np.floor(F)
    k[:, b.dims:] = 0
    d.nontrivial(np.any(k) and np.any(F == np.round(F)))
    equal("get_images", b.fb.get_images(V), k.astype(int))
    W = (F - k - 0.5) @ b.M.T
    if is2D:
        W[:, 2] = 0
    equal("wrap", b.fb.wrap(V), W.astype(np.float32))
    equal("wrap twice", b.fb.wrap(b.fb.wrap(V)), W.astype(np.float32))
    equal("contains", b.fb.contains(V), ~np.any(k, axis=1))
    equal("unwrap", b.fb.unwrap(b.fb.wrap(V), b.fb.get_images(V)), V)
    G = F.copy()
    if is2D:
        G[:, 2] = 0
    equal("make_fractional", b.fb.make_fractional(V), G.astype(np.float32))
    equal("make_absolute", b.fb.make_absolute(F), V)


def circ_com(b, V, m):
    f = ref.frac(b, V) + 0.5
    z = (np.exp(2j * np.pi * f) * np.asarray(m, float)[:, None]).sum(axis=0) / np.sum(m)
    c = np.angle(z) / (2 * np.pi) % 1.0
    com = (c - 0.5) @ b.M.T
    if b.is2D:
        com[2] = 0
    return com, np.abs(z)[:b.dims]


def center(d):
    b = gen.box(d)
    n = d.int(1, 12)
    V, F, img = vectors(d, b, n, d.choice((0, 2)))
    masses = None if d.bool() else np.array([d.float(0.1, 5) for _ in range(n)], dtype=np.float32)
    d.note(box=b.desc(), vectors=V, masses=masses)
    d.nontrivial(len(np.unique(V, axis=0)) > 1)
    m = np.ones(n) if masses is None else masses
    com, amp = circ_com(b, V, m)
    if amp.min() < 0.02:
        d.label("ill-conditioned")
        return
    V0 = V.copy()
    C = np.asarray(b.fb.center(V, masses))
    equal("input after center", V, V0)
    same_shape("center", C, V.shape)
    t = 3 * tolv(b, V) / amp.min() + 1e-5 * b.scale / amp.min()
    want = V - com
    k = ref.frac(b, C - want)
    kr = np.round(k)
    kr[:, b.dims:] = 0
    close("center: points minus centre of mass, modulo the lattice", C, want + kr @ b.M.T, rtol=0, atol=t)
    f = ref.frac(b, C)[:, :b.dims]
    ft = tolv(b, V) * np.abs(b.Minv[:b.dims, :b.dims]).sum() + 1e-6
    require(np.all(np.abs(f) <= 0.5 + ft), "center: outside of the box", frac=f)
    com2, amp2 = circ_com(b, C, m)
    k = ref.frac(b, com2)[0:b.dims] if com2.ndim == 1 else com2
    require(np.all(np.abs(np.exp(2j * np.pi * np.asarray(k)) - 1) < 2e-3 / amp.min()), "the centre of mass after "
            "centring is not at the origin", com=com2)
    if b.is2D:
        require(np.all(C[:, 2] == 0), "center: z is not zero in 2D", got=C)


SUBS = [Sub(wrap, 6000), Sub(fractional, 3000), Sub(images, 4000), Sub(exact, 4000), Sub(center, 2500)]
