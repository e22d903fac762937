"""C03: box construction, editing and conversion."""

import warnings

import numpy as np

from .. import gen
from ..engine import Sub, close, equal, fail, raises, require, same_shape

PROP = "C03"
RULE = ("Boxes over 2D/3D with all tilts and periodicities are passed through every representation and through random "
        "histories of up to 10 property edits; after each step the whole observable behaviour is compared to a newly "
        "constructed box. Non-trivial: the box is tilted or not fully periodic, or the history has at least two edits.")

PROBES = np.array([[0, 0, 0], [0.3, -0.2, 0.1], [7.3, -5.1, 2.2], [-31.7, 12.9, 55.5], [4.1, 4.2, -4.3]],
                  dtype=np.float32)


def quiet(fn):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn()


def build(v):
    """A new box from the model values (a dict)."""
    import freud

    b = quiet(lambda: freud.box.Box(v["Lx"], v["Ly"], v["Lz"], v["xy"], v["xz"], v["yz"], is2D=v["is2D"]))
    b.periodic = v["periodic"]
    return b


def same_behaviour(name, a, b, d=None):
    """Every observable of the boxes a and b is identical."""
    for k in ("Lx", "Ly", "Lz", "xy", "xz", "yz", "is2D", "dimensions", "volume", "periodic_x", "periodic_y",
              "periodic_z", "cubic"):
        require(getattr(a, k) == getattr(b, k), f"{name}: {k}", got=getattr(a, k), want=getattr(b, k))
    equal(name + ": L", a.L, b.L)
    equal(name + ": L_inv", a.L_inv, b.L_inv)
    equal(name + ": periodic", a.periodic, b.periodic)
    P = PROBES.copy()
    if a.is2D:
        P[:, 2] = 0
    equal(name + ": wrap", a.wrap(P), b.wrap(P))
    equal(name + ": make_fractional", a.make_fractional(P), b.make_fractional(P))
    equal(name + ": make_absolute", a.make_absolute(P), b.make_absolute(P))
    equal(name + ": get_images", a.get_images(P), b.get_images(P))
    equal(name + ": contains", a.contains(P), b.contains(P))
    equal(name + ": unwrap", a.unwrap(P, [[1, -1, 2]] * len(P)), b.unwrap(P, [[1, -1, 2]] * len(P)))
    equal(name + ": distances", a.compute_all_distances(P, P), b.compute_all_distances(P, P))
    equal(name + ": to_matrix", a.to_matrix(), b.to_matrix())
    require(a.to_dict() == b.to_dict(), f"{name}: to_dict")
    require(a.to_box_params() == b.to_box_params(), f"{name}: to_box_params")
    require(repr(a) == repr(b), f"{name}: repr")
    require(a == b and b == a and not (a != b), f"{name}: not equal")


def draw_values(d):
    b = gen.box(d)
    per = tuple(True for _ in range(3)) if d.bool() else (d.bool(), d.bool(), d.bool())
    v = {"Lx": b.Lx, "Ly": b.Ly, "Lz": b.Lz, "xy": b.xy, "xz": b.xz, "yz": b.yz, "is2D": b.is2D, "periodic": per}
    if b.is2D:
        v["Lz"] = 0.0
    return v


def vectors_of(v):
    lz = 0.0 if v["is2D"] else v["Lz"]
    return np.array([[v["Lx"], v["xy"] * v["Ly"], v["xz"] * lz], [0, v["Ly"], v["yz"] * lz], [0, 0, lz]])


def observe(d):
    """The observables of a new box are those documented for its parameters."""
    v = draw_values(d)
    d.note(values=v)
    b = build(v)
    M = vectors_of(v)
    s = np.abs(M).max()
    d.nontrivial(any((v["xy"], v["xz"], v["yz"])) or not all(v["periodic"]))
    close("to_matrix", b.to_matrix(), M, rtol=1e-6, atol=1e-6 * s)
    vol = v["Lx"] * v["Ly"] * (1 if v["is2D"] else v["Lz"])
    close("volume", b.volume, vol, rtol=1e-5, atol=0)
    close("L", b.L, [v["Lx"], v["Ly"], 0 if v["is2D"] else v["Lz"]], rtol=1e-7, atol=0)
    close("L_inv", b.L_inv[:2], [1 / v["Lx"], 1 / v["Ly"]], rtol=1e-6, atol=0)
    if not v["is2D"]:
        close("L_inv", b.L_inv[2], 1 / v["Lz"], rtol=1e-6, atol=0)
    require(b.dimensions == (2 if v["is2D"] else 3), "dimensions")
    equal("periodic", b.periodic, np.array(v["periodic"]))
    eps = [abs(v["Lx"] - v["Ly"]), abs(v["Lx"] - v["Lz"])]
    if not v["is2D"]:
        if max(eps) == 0 and not any((v["xy"], v["xz"], v["yz"])):
            require(b.cubic, "cubic is false for a cube")
        elif max(eps) > 1e-2 * s or max(abs(v["xy"]), abs(v["xz"]), abs(v["yz"])) > 1e-3:
            require(not b.cubic, "cubic is true for a box that is not a cube")
    else:
        require(not b.cubic, "cubic is true for a 2D box")


class Attr:
    pass


def convert(d):
    import freud

    Box = freud.box.Box
    v = draw_values(d)
    b = build(v)
    form = d.choice(("box", "dict", "dict_nodim", "attr", "params", "list3", "list2", "matrix", "matrix_dim",
                     "angles", "repr", "frommatrix", "system", "convertbox", "dict_partial"))
    d.note(values=v, form=form)
    d.label(form)
    d.nontrivial(any((v["xy"], v["xz"], v["yz"])) or not all(v["periodic"]))
    is2D = v["is2D"]
    dim = 2 if is2D else 3
    M = vectors_of(v)
    s = np.abs(M).max()
    vp = dict(v, periodic=(True, True, True))
    if form == "box":
        c = Box.from_box(b, dimensions=d.choice((None, dim)))
        same_behaviour(form, c, b)
        c.Lx = c.Lx * 2
        require(b.Lx == v["Lx"], "converted box shares state with its source")
        require(raises(lambda: Box.from_box(b, dimensions=5 - dim), ValueError), "conflicting dimensions accepted")
        return
    if form == "convertbox":
        from freud.util import _convert_box

        require(_convert_box(b) is b or _convert_box(b) == b, "_convert_box of a box")
        require(raises(lambda: _convert_box(b, 5 - dim), ValueError), "_convert_box: wrong dimensions accepted")
        return
    if form == "dict":
        same_behaviour(form, quiet(lambda: Box.from_box(b.to_dict())), build(vp))
        require(raises(lambda: quiet(lambda: Box.from_box(b.to_dict(), dimensions=5 - dim)), ValueError),
                "conflicting dimensions accepted")
        return
    if form == "dict_nodim":
        t = {k: x for k, x in b.to_dict().items() if k != "dimensions"}
        same_behaviour(form, Box.from_box(t), build(vp))
        same_behaviour(form, Box.from_box(t, dimensions=dim), build(vp))
        return
    if form == "dict_partial":
        keep = {"Lx", "Ly"} | {k for k in ("Lz", "xy", "xz", "yz") if d.bool()}
        t = {k: x for k, x in b.to_dict().items() if k in keep}
        w = dict(vp)
        for k in ("Lz", "xy", "xz", "yz"):
            if k not in keep:
                w[k] = 0.0
        w["is2D"] = w["Lz"] == 0
        same_behaviour(form, quiet(lambda: Box.from_box(t)), quiet(lambda: build(w)))
        return
    if form == "attr":
        o = Attr()
        for k in ("Lx", "Ly", "Lz", "xy", "xz", "yz"):
            setattr(o, k, v[k])
        if d.bool():
            o.dimensions = dim
        same_behaviour(form, Box.from_box(o), build(vp))
        return
    if form == "params":
        t = b.to_box_params()
        t = d.choice((tuple, list, np.array))(t)
        same_behaviour(form, Box.from_box(t), build(vp))
        for n in (1, 4, 5, 7):
            require(raises(lambda: Box.from_box([1.0] * n), ValueError), "list of a wrong length accepted", n=n)
        return
    if form in ("list3", "list2"):
        w = dict(vp, xy=0.0, xz=0.0, yz=0.0)
        if form == "list2":
            w.update(Lz=0.0, is2D=True)
            t = [v["Lx"], v["Ly"]]
        else:
            t = [v["Lx"], v["Ly"], w["Lz"]]
        same_behaviour(form, Box.from_box(d.choice((tuple, list, np.array))(t)), build(w))
        return
    if form == "repr":
        b.periodic = True
        same_behaviour(form, quiet(lambda: eval(repr(b), {"freud": freud})), b)
        require(str(b) == repr(b), "str and repr differ")
        return
    if form == "system":
        P = np.zeros((1, 3), dtype=np.float32)
        if not all(v["periodic"][:dim]):
            return
        nq = freud.locality.AABBQuery(b, P)
        same_behaviour("box of a query object", nq.box, b)
        return
    # approximate forms
    if form == "matrix":
        c = Box.from_box(b.to_matrix())
        t = 3e-6
    elif form in ("matrix_dim", "frommatrix"):
        c = quiet(lambda: (Box.from_box if form == "matrix_dim" else Box.from_matrix)(b.to_matrix().tolist(),
                                                                                     dimensions=dim))
        t = 3e-6
    else:
        c = quiet(lambda: Box.from_box_lengths_and_angles(*angles_of(b, is2D)))
        L1, L2, L3, al, be, ga = b.to_box_lengths_and_angles()
        vec = M.T
        n = np.linalg.norm(vec, axis=1)
        close("L1, L2, L3", [L1, L2, L3], n, rtol=1e-5, atol=1e-6 * s)
        close("gamma", ga, np.arccos(vec[0] @ vec[1] / n[0] / n[1]), rtol=1e-4, atol=1e-4)
        if not is2D:
            close("alpha", al, np.arccos(vec[1] @ vec[2] / n[1] / n[2]), rtol=1e-4, atol=1e-4)
            close("beta", be, np.arccos(vec[0] @ vec[2] / n[0] / n[2]), rtol=1e-4, atol=1e-4)
        t = 3e-5
    kappa = (1 + abs(v["xy"])) * (1 + abs(v["xz"]) + abs(v["yz"])) ** 2 * s / min(x for x in (v["Lx"], v["Ly"], v["Lz"] if not is2D else 1e9))
    close(form + ": lattice vectors", c.to_matrix(), M, rtol=t, atol=t * s * kappa)
    close(form + ": volume", c.volume, b.volume, rtol=t * 10 * kappa, atol=0)
    require(c.dimensions == dim, form + ": dimensions", got=c.dimensions)
    close(form + ": tilts", [c.xy, c.xz * (not is2D), c.yz * (not is2D)], [v["xy"], v["xz"] * (not is2D),
                                                                          v["yz"] * (not is2D)],
          rtol=t * 10, atol=t * 10 * kappa)


def angles_of(b, is2D):
    L1, L2, L3, al, be, ga = b.to_box_lengths_and_angles()
    if is2D:
        return L1, L2, 0, np.pi / 2, np.pi / 2, ga
    return L1, L2, L3, al, be, ga


def rotated_matrix(d):
    """from_matrix of a rotated, not upper triangular lattice gives the same lattice up to rotation."""
    import freud

    from .. import ref

    v = draw_values(d)
    if v["is2D"]:
        v.update(Lz=5.0, is2D=False)
    M = vectors_of(v)
    q = gen.unit_quat(d)
    R = np.array([ref.qrot(q, e) for e in np.eye(3)]).T
    N = R @ M
    d.note(matrix=N)
    d.nontrivial(not np.allclose(R, np.eye(3)))
    b = freud.box.Box.from_matrix(N)
    s = np.abs(M).max()
    kappa = (1 + abs(v["xy"])) * (1 + abs(v["xz"]) + abs(v["yz"])) ** 2 * s / min(v["Lx"], v["Ly"], v["Lz"])
    close("from_matrix of a rotated matrix", b.to_matrix(), M, rtol=1e-5, atol=2e-5 * s * kappa)


EDITS = ("Lx", "Ly", "Lz", "L3", "Lscalar", "xy", "xz", "yz", "dim", "periodic", "periodic1", "px", "py", "pz", "mul",
         "rmul")


def history(d):
    v = draw_values(d)
    b = build(v)
    n = d.int(1, 10)
    hist = []
    d.note(start=dict(v), history=hist)
    d.nontrivial(n >= 2)
    for _ in range(n):
        op = d.choice(EDITS)
        x = d.choice((1.0, 2.5, 10.0, 0.75)) if d.bool() else float(np.float32(d.float(0.5, 30)))
        if op in ("Lx", "Ly"):
            quiet(lambda: setattr(b, op, x))
            v[op] = x
        elif op == "Lz":
            quiet(lambda: setattr(b, "Lz", x))
            v["Lz"] = 0.0 if v["is2D"] else x
        elif op == "L3":
            L = [x, float(np.float32(x * 1.5)), float(np.float32(x * 0.75))]
            arg = d.choice((list, tuple, np.array))(L)
            quiet(lambda: setattr(b, "L", arg))
            v.update(Lx=L[0], Ly=L[1], Lz=0.0 if v["is2D"] else L[2])
        elif op == "Lscalar":
            quiet(lambda: setattr(b, "L", x))
            v.update(Lx=x, Ly=x, Lz=0.0 if v["is2D"] else x)
        elif op in ("xy", "xz", "yz"):
            x = float(np.float32(d.float(-1.5, 1.5)))
            setattr(b, op, x)
            v[op] = x
        elif op == "dim":
            k = d.choice((2, 3))
            b.dimensions = k
            if k == 3 and v["is2D"]:
                b.Lz = x
                v["Lz"] = x
            elif k == 2:
                v["Lz"] = 0.0
            v["is2D"] = k == 2
            x = k
        elif op == "periodic":
            x = (d.bool(), d.bool(), d.bool())
            b.periodic = d.choice((list, tuple, np.array))(x)
            v["periodic"] = x
        elif op == "periodic1":
            x = d.bool()
            b.periodic = x
            v["periodic"] = (x, x, x)
        elif op in ("px", "py", "pz"):
            x = d.bool()
            setattr(b, "periodic_" + op[1], x)
            k = "xyz".index(op[1])
            v["periodic"] = tuple(x if i == k else p for i, p in enumerate(v["periodic"]))
        else:
            old = b
            b = quiet(lambda: b * x if op == "mul" else x * b)
            same_behaviour("scaling must not modify its operand", old, quiet(lambda: build(v)))
            for k in ("Lx", "Ly", "Lz"):
                v[k] = float(np.float32(v[k] * x))
        hist.append([op, x])
        same_behaviour(f"after {op}", b, build(v))


def equality(d):
    v = draw_values(d)
    a = build(v)
    w = dict(v)
    k = d.choice(("none", "Lx", "Ly", "Lz", "xy", "xz", "yz", "is2D", "px", "py", "pz"))
    if k in ("Lx", "Ly", "Lz"):
        w[k] = float(np.float32(v[k] * 1.25 + 0.5))
        if k == "Lz" and v["is2D"]:
            k = "none"
            w = dict(v)
    elif k in ("xy", "xz", "yz"):
        w[k] = float(np.float32(v[k] + 0.25))
    elif k == "is2D":
        w["is2D"] = not v["is2D"]
        w["Lz"] = 0.0 if w["is2D"] else 3.0
    elif k[0] == "p":
        i = "xyz".index(k[1])
        w["periodic"] = tuple((not p) if j == i else p for j, p in enumerate(v["periodic"]))
    d.note(values=v, changed=k)
    d.nontrivial(k != "none")
    b = quiet(lambda: build(w))
    require((a == b) == (k == "none"), "equality", changed=k)
    require((b == a) == (k == "none"), "equality is not symmetric", changed=k)
    require((a != b) == (k != "none"), "inequality", changed=k)
    require(not (a == "box") and a != None, "equality to another type")  # noqa: E711
    for bad in (0, -1.5):
        require(raises(lambda: a * bad, ValueError), "scaling by a non-positive number accepted")


def generic(d):
    """cube and square constructors."""
    import freud

    L = d.f32(0.1, 50)
    d.note(L=L)
    d.nontrivial()
    same_behaviour("cube", freud.box.Box.cube(L), freud.box.Box(L, L, L))
    same_behaviour("square", freud.box.Box.square(L), freud.box.Box(L, L, is2D=True))
    same_behaviour("Lz = 0", freud.box.Box(L, L), freud.box.Box(L, L, 0, is2D=True))
    require(freud.Box is freud.box.Box, "freud.Box")


SUBS = [Sub(observe, 3000), Sub(convert, 5000), Sub(rotated_matrix, 1500), Sub(history, 2500), Sub(equality, 1500),
        Sub(generic, 200)]
