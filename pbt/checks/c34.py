"""C34: memory safety, decided on a build with address and undefined behaviour sanitizers."""

import importlib
import os

import numpy as np

from .. import gen
from ..engine import Discard, HarnessError, Sub, Violation, require
from . import analyses
from .analyses import ALL

PROP = "C34"
RULE = ("Cases run in processes that load a build of the working tree with address sanitizer, undefined behaviour "
        "sanitizer and checked standard containers; a report of one of these aborts the process, which is the "
        "violation. checked: the cases of the other checks (histories of neighbor lists, queries, frames; all "
        "analyses). wild: every analysis with hostile sizes (0, 1), coordinates and arrays (NaN, infinities, 1e30, "
        "denormals), constructor and query arguments, and neighbor lists built from hostile arrays; results that are "
        "returned have one entry per particle. boxes, lists: the same for Box and NeighborList methods. Non-trivial: "
        "the call returned a result or was made with at least one hostile value.")

# child processes and the whole-process settings of C29 are left to it
SKIP = {("c29", "processes"), ("c29", "context"), ("c11", "many_bins")}


def others():
    r = []
    for k in [*range(1, 34), *range(35, 40)]:
        m = importlib.import_module(f"pbt.checks.c{k:02d}")
        r += [(f"c{k:02d}", s) for s in m.SUBS if (f"c{k:02d}", s.name) not in SKIP]
    return r


OTHERS = []


def checked(d):
    """A case of another check; only the sanitizers judge it."""
    if not OTHERS:
        OTHERS.extend(others())
    k, s = OTHERS[d.draw(len(OTHERS) - 1)]
    d.label(f"{k}.{s.name}")
    try:
        s.fn(d)
    except (Discard, HarnessError, MemoryError):
        raise
    except Violation:
        pass  # judged by that check
    except Exception:  # noqa: BLE001
        pass


FLOATS = (0.0, -0.0, -1.0, np.nan, np.inf, -np.inf, 1e30, -1e30, 1e-30, 1e-45, 3.4e38, 1e9, -1e9, 2.0 ** 31, 2.0 ** 32,
          2.0 ** 63)
INTS = (0, 1, 2, 3, -1, 7, 63, 1000, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 63 - 1, 2 ** 64 - 1, -2 ** 31)


def hostile(d, x):
    return d.choice(FLOATS) if isinstance(x, float) else d.choice(INTS)


def poison(d, a):
    """A copy of a floating-point array with some values replaced."""
    a = np.array(a)
    if a.size == 0 or a.dtype.kind not in "fc":
        if a.size and a.dtype.kind in "iu":
            a.flat[d.draw(a.size - 1)] = d.choice((0, 1, a.size, 2 ** 31 - 1, 2 ** 32 - 1)) % (1 << (8 * a.itemsize - 1))
        return a
    with np.errstate(all="ignore"):
        if d.bool(6):
            a[...] = d.choice(FLOATS)
        for _ in range(d.int(1, 3)):
            a.flat[d.draw(a.size - 1)] = d.choice(FLOATS)
    return a


def wild_nb(d, inp, an):
    k = d.draw(3)
    if k == 0:
        return ("object", wild_list(d, len(inp.P), len(inp.q)))
    a = {}
    if d.bool():
        a["mode"] = d.choice(("ball", "nearest", "none", "", "ball"))
    r = 0.5 * inp.b.rhalf
    if d.bool() or k == 1:
        a["r_max"] = d.choice(FLOATS) if d.bool() else r
    if d.bool(3):
        a["r_min"] = d.choice(FLOATS) if d.bool() else 0.5 * r
    if d.bool() and k != 1:
        a["num_neighbors"] = d.choice(INTS) if d.bool() else 3
    if d.bool(3):
        a["r_guess"] = d.choice([x for x in FLOATS if x != 1e-45])  # does not grow when multiplied by scale
    if d.bool(3):
        a["scale"] = d.choice(FLOATS + (1.0, 0.5, 1.1))
    if d.bool(3):
        a["exclude_ii"] = d.bool()
    return ("object", a)


def wild_list(d, n, m):
    """A neighbor list for n points and m query points from arbitrary arrays (raises where freud rejects them)."""
    import freud

    dm, dn = d.choice(((0, 0), (0, 0), (0, 0), (1, 0), (0, 1), (-1, 0), (0, -1), (10, 10)))
    N = d.draw(10)
    g = d.rng()
    I = np.sort(g.integers(0, max(1, m), N)) if d.bool() else g.integers(0, max(1, m), N)
    J = g.integers(0, max(1, n), N)
    if N and d.bool(3):
        J[d.draw(N - 1)] = d.choice(INTS[:-2] + (n, n - 1))
    if N and d.bool(3):
        I[d.draw(N - 1)] = d.choice(INTS[:-2] + (m, m - 1))
    V = g.normal(size=(N, 3)).astype(np.float32)
    W = np.ones(N, dtype=np.float32)
    if d.bool(3):
        V, W = poison(d, V), poison(d, W)
    if d.bool(5):
        V = V[:-1] if d.bool() else V[:, :2]
    if d.bool(5):
        W = W[:-1]
    return freud.locality.NeighborList.from_arrays(max(0, m + dm), max(0, n + dn), I, J, V, W)


def wild_box(d):
    """A box, sometimes with extreme but representable lengths."""
    import freud

    L = [d.choice((1e-20, 1e-3, 1.0, 1e6, 1e18, 5.0)) for _ in range(3)]
    t = [d.choice((0.0, 1e3, -1e3, 0.5, 1e10)) if d.bool(3) else 0.0 for _ in range(3)]
    return freud.Box(L[0], L[1], 0 if d.bool() else L[2], *t)


ANY = (Exception,)


def poll(o, names):
    for k in names:
        try:
            np.array(getattr(o, k))
        except Exception:  # noqa: BLE001
            pass


def wild(d):
    an = ALL[d.choice(sorted(ALL))]
    d.label(an.name)
    try:
        inp = analyses.general(d, an, nmin=1, nmax=14)
    except Discard:
        raise
    n, m = len(inp.P), len(inp.q)
    what = []
    for _ in range(d.int(1, 3)):
        k = d.draw(7)
        if k == 0:
            inp.P = poison(d, inp.P)
            what.append("points")
        elif k == 1 and inp.Q is not None:
            inp.Q = poison(d, inp.Q)
            what.append("query points")
        elif k == 2 and inp.arr:
            key = d.choice(sorted(inp.arr))
            inp.arr[key] = poison(d, inp.arr[key])
            what.append(key)
        elif k == 3 and an.neighbors:
            try:
                inp.nb = wild_nb(d, inp, an)
            except ANY:
                pass
            what.append("neighbors")
        elif k == 4:
            # fewer (or no) points, query points or values
            which = d.choice(["P", "Q"] + sorted(inp.arr))
            if which == "P":
                inp.P = inp.P[:d.draw(1)]
            elif which == "Q" and inp.Q is not None:
                inp.Q = inp.Q[:d.draw(1)]
            elif which in inp.arr:
                inp.arr[which] = inp.arr[which][:d.draw(1)]
            what.append("fewer " + which)
        elif k == 5:
            inp.P = inp.P[:0]
            if inp.Q is not None and d.bool():
                inp.Q = inp.Q[:0]
            for key in inp.arr:
                if d.bool():
                    inp.arr[key] = inp.arr[key][:0]
            what.append("no points")
        elif k == 6:
            key = d.choice(sorted(inp.prm)) if inp.prm else None
            v = inp.prm.get(key)
            if isinstance(v, bool) or v is None or isinstance(v, str):
                continue
            if isinstance(v, (int, float)) and key == "buffer":
                inp.prm[key] = d.choice((np.nan, np.inf, -1.0, 0.0, 1e-30))
            elif isinstance(v, (int, float)) and key not in ("n",):
                inp.prm[key] = d.choice((0, 1, 2, 40, -1, 2 ** 32, 2 ** 63)) if key == "l" else hostile(d, v)
            elif isinstance(v, list):
                # a buffer: the work grows with its value
                inp.prm[key] = [d.choice((np.nan, np.inf, -1.0, 0.0, 1e-30)) for _ in v]
            elif isinstance(v, tuple):
                v = list(v)
                if isinstance(v[0], int):
                    v[d.draw(len(v) - 1)] = d.choice((0, 1, 2, -1, 7, 2 ** 31, 2 ** 32, 2 ** 40))
                else:
                    v[d.draw(len(v) - 1)] = d.choice(FLOATS)
                inp.prm[key] = tuple(v)
            elif isinstance(v, np.ndarray):
                inp.prm[key] = v[:0] if d.bool() else poison(d, v)
            what.append("parameter " + key)
        elif k == 7:
            b = inp.b
            f = d.choice((0.2, 4.0, 0.5))  # (cost of a link cell search: cells within r_max)
            inp.b = gen.BoxSpec(b.Lx * f, b.Ly, b.Lz, b.xy, b.xz, b.yz, is2D=b.is2D)
            what.append("box")
    d.note(hostile=what, **inp.desc())
    o = None
    try:
        o = an.make(inp.prm)
        an.compute(o, inp, inp.system())
        r = an.results(o, inp)
    except Discard:
        raise
    except ANY as e:
        d.label(type(e).__name__)
        d.nontrivial(bool(what))
        poll(o, [k for k in dir(type(o)) if not k.startswith("_")] if o is not None else [])
        return
    d.label("result")
    d.nontrivial()
    for k, (kind, v, _) in r.items():
        if kind in ("query", "point") and an.name != "MSD":
            want = len(inp.q) if kind == "query" else None
            if want is not None:
                require(len(v) == want, f"{an.name}: {k}: one value per query point", got=len(v), want=want, what=what)


def boxes(d):
    """Methods of boxes on hostile vectors."""
    import freud

    b = gen.box(d).fb if d.bool() else wild_box(d)
    n = d.draw(4)
    v = poison(d, d.rng().normal(size=(n, 3)) * d.choice((1.0, 1e3, 1e20)))
    w = poison(d, d.rng().normal(size=(d.draw(4), 3)))
    im = d.rng().integers(-5, 5, (n, 3))
    if n and d.bool():
        im[d.draw(n - 1), d.draw(2)] = d.choice((2 ** 31 - 1, -2 ** 31, 2 ** 31, 2 ** 40))
    d.note(box=str(b), v=v, w=w)
    for f in (lambda: b.wrap(v), lambda: b.unwrap(v, im), lambda: b.get_images(v), lambda: b.make_fractional(v),
              lambda: b.make_absolute(v), lambda: b.center_of_mass(v), lambda: b.center(v), lambda: b.contains(v),
              lambda: b.compute_distances(v, w), lambda: b.compute_all_distances(v, w),
              lambda: b.center_of_mass(v, np.ones(len(w))), lambda: b.contains(w), lambda: b.wrap(v[:, :2]),
              lambda: b.get_box_vector(d.choice((-1, 0, 3, 2 ** 32))), lambda: b.to_matrix(), lambda: b == 3,
              lambda: b.unwrap(v, im[:1]), lambda: b.unwrap(v[:1], im), lambda: freud.Box.from_matrix(poison(d, b.to_matrix()))):
        if d.bool():
            try:
                f()
            except ANY as e:
                d.label(type(e).__name__)
    d.nontrivial(n > 0)


def lists(d):
    """Neighbor lists from hostile arrays and their methods."""
    import freud

    n, m = d.draw(6), d.draw(6)
    try:
        nl = wild_list(d, n, m)
    except ANY as e:
        d.label(type(e).__name__)
        d.nontrivial()
        return
    d.label("list")
    d.note(n=n, m=m, bonds=len(nl))
    for _ in range(d.int(1, 6)):
        k = d.draw(8)
        try:
            if k == 0:
                nl.filter(d.rng().integers(0, 2, d.choice((len(nl), len(nl), len(nl) + 1, 0))).astype(bool))
            elif k == 1:
                nl.filter_r(d.choice(FLOATS), d.choice(FLOATS))
            elif k == 2:
                nl.find_first_index(d.choice((0, 1, m, m + 1, 2 ** 32 - 1, -1)))
            elif k == 3:
                np.array(nl.segments), np.array(nl.neighbor_counts)
            elif k == 4:
                nl = nl.copy() if d.bool() else nl
            elif k == 5:
                nl.copy(wild_list(d, n, m))
            elif k == 6:
                nl.sort(by_distance=d.bool())
            elif k == 7:
                nl.weights[...] = d.choice(FLOATS)
            else:
                x = nl[d.choice((0, -1, len(nl), slice(None), 2 ** 31))]
                np.array(x)
        except ANY as e:
            d.label(type(e).__name__)
    np.array(nl[:]), np.array(nl.vectors), np.array(nl.distances)
    d.nontrivial()


def left_out(d):
    """The classes that /opt/vp/build.sh leaves out, with hostile arguments."""
    import freud

    b = gen.box(d, dims=d.choice((2, 3, 3)), wide=False)
    P = gen.points(d, b, d.draw(10))
    Q = gen.points(d, b, d.draw(6)) if d.bool(3) else None
    kind = d.choice(("steinhardt", "solid", "nematic", "cluster", "motif", "rmsd", "local", "voronoi", "direct"))
    d.label(kind)
    q = P if Q is None else Q
    inp = analyses.Input(b, P, Q)
    clean = P
    if d.bool():
        P = poison(d, P)
    if Q is not None and d.bool():
        Q = poison(d, Q)
    nbs = []
    for _ in range(2):
        nb = {"num_neighbors": d.int(1, 6)} if d.bool() else {"r_max": 0.6 * b.rhalf}
        if d.bool():
            try:
                nb = wild_nb(d, inp, None)[1]
            except ANY:
                pass
        nbs.append(nb)
    x = d.choice(FLOATS) if d.bool() else d.float(0, 1)
    i = d.choice((0, 1, 2, 4, 6, 12, 20, -1, 2 ** 32, 2 ** 31))
    d.note(kind=kind, box=b.desc(), points=P, query_points=Q, neighbors=[str(k) for k in nbs], x=x, i=i)
    o = None
    fs = (b.fb, P)
    try:
        if kind == "steinhardt":
            o = freud.order.Steinhardt([i, d.draw(8)] if d.bool() else i, average=d.bool(), wl=d.bool() and i < 9,
                                       weighted=d.bool(), wl_normalize=d.bool())
            o.compute(fs, nbs[0])
        elif kind == "solid":
            o = freud.order.SolidLiquid(i, x, d.choice((0, 1, 3, 2 ** 31, -1)), normalize_q=d.bool())
            o.compute(fs, nbs[0])
        elif kind == "nematic":
            o = freud.order.Nematic().compute(poison(d, d.rng().normal(size=(d.draw(6), 3))))
        elif kind == "cluster":
            o = freud.environment.EnvironmentCluster()
            o.compute(fs, x, nbs[0], nbs[1], registration=d.bool())
        elif kind in ("motif", "rmsd"):
            M = d.rng().normal(size=(d.draw(6), 3))
            if d.bool():
                M = poison(d, M)
            if kind == "motif":
                o = freud.environment.EnvironmentMotifMatch()
                o.compute(fs, M, x, nbs[0], registration=d.bool())
            else:
                o = freud.environment._EnvironmentRMSDMinimizer()
                o.compute(fs, M, nbs[0], registration=d.bool())
        elif kind == "local":
            o = freud.environment.LocalDescriptors(d.choice((0, 1, 2, 8, -1)), d.bool(),
                                                   d.choice(("neighborhood", "global", "particle_local")))
            q = gen.quats(d, len(q)) if d.bool() else None
            if q is not None and d.bool():
                q = poison(d, q)
            o.compute(fs, Q, q, nbs[0], d.choice((0, 0, 1, 3, 100)))
        elif kind == "voronoi":
            fs = (b.fb, clean)  # (other coordinates would test the stand-in for voro++)
            if d.bool():
                o = freud.locality.Voronoi().compute(fs)
            else:
                v = freud.locality.Voronoi()
                if d.bool(5):
                    nl = nbs[0] if not isinstance(nbs[0], dict) else None
                else:
                    nl = v.compute(fs)
                o = freud.order.ContinuousCoordination([x, 2.0], d.bool(), d.bool()).compute(fs, nl)
        else:
            # (the work grows with k_max; std::complex functions of NaN are unspecified)
            x = d.choice((0.0, -1.0, 1e-3, 1.0, 10.0 / b.scale))
            o = freud.diffraction.StaticStructureFactorDirect(d.choice((0, 1, 5, 300)), d.choice((x, 6.0 / b.scale, 20.0 / b.scale)), d.choice((0.0, x)),
                                                              d.choice((0, 1, 100, 2 ** 31)))
            for _ in range(d.int(1, 2)):
                if Q is None:
                    o.compute(fs)
                else:
                    o.compute(fs, Q, d.choice((0, 1, len(P) + len(Q))), reset=d.bool())
    except ANY as e:
        d.label(type(e).__name__)
    else:
        d.label("result")
    if o is not None:
        poll(o, [k for k in dir(type(o)) if not k.startswith("_")])
    d.nontrivial()


def queries(d):
    """Query objects with hostile arguments, consumed partially."""
    import freud

    b = gen.box(d, wide=False)
    P = gen.points(d, b, d.draw(8))
    Q = gen.points(d, b, d.draw(5))
    if d.bool():
        P = poison(d, P)
    if d.bool():
        Q = poison(d, Q)
    kind = d.draw(2)
    inp = analyses.Input(b, P, Q)
    try:
        if kind == 0:
            nq = freud.locality.AABBQuery(b.fb, P)
        elif kind == 1:
            nq = freud.locality.LinkCell(b.fb, P, d.choice(FLOATS) if d.bool() else 0.4 * b.rhalf)
        else:
            nq = freud.locality.CellQuery(b.fb, P)
        _, a = wild_nb(d, inp, None)
        if not isinstance(a, dict):
            raise Discard("list")
        d.note(box=b.desc(), points=P, query_points=Q, args=a, kind=kind)
        q = nq.query(Q, a)
        if d.bool():
            it = iter(q)
            for _ in range(d.draw(5)):
                next(it, None)
            if d.bool():
                del nq
            next(it, None)
        else:
            q.toNeighborList(d.bool())
        d.label("result")
    except (Discard, HarnessError):
        raise
    except ANY as e:
        d.label(type(e).__name__)
    d.nontrivial()


SUBS = [Sub(boxes, 1500), Sub(lists, 2500), Sub(queries, 2500), Sub(wild, 4500), Sub(left_out, 2500), Sub(checked, 6000)]

if not os.environ.get("PBT_SANITIZED"):
    OTHERS = []
