"""C32: invalid input is rejected, valid input is not modified, access is gated."""

import numpy as np

from ..engine import Discard, Sub, in_freud, require
from . import analyses
from .analyses import ALL

PROP = "C32"
RULE = ("Every analysis on random systems. Rejection: one argument with a wrong shape, a wrong length, another number of "
        "points in the neighbor list or wrong query arguments, on a fresh object or after a compute; then a correct "
        "compute. Access to each computed attribute and plots before the first compute and after a failed one. Bytes "
        "of all arguments before and after; overwriting the arguments afterwards. Arrays as doubles, integers, lists, "
        "tuples, strided, Fortran-ordered, byte-swapped, unaligned and read-only. Oracle: an exception from freud, the "
        "results of the plain input. Non-trivial: an argument was changed.")

NAMES = sorted(ALL)
POSITIONS = [n for n in NAMES if n not in ("Cubatic", "RotationalAutocorrelation", "AngularSeparationGlobal", "MSD")]


def bad_coordinates(d, P):
    P = np.array(P)
    k = d.draw(len(P) - 1)
    c = d.draw(2)
    v = d.choice((np.nan, np.inf, -np.inf))
    if d.bool(4):
        P[k] = v
    else:
        P[k, c] = v
    return P


def bad_shape(d, A, squeezed=False):
    A = np.asarray(A)
    n = len(A)
    w = A.reshape(n, -1)
    k = d.draw(6)
    if squeezed:
        # axes of length 1 are removed
        k = d.draw(1)
    if k == 0:
        return w[:, :-1] if w.shape[1] > 1 else np.stack([w, w], axis=-1)
    if k == 1:
        return np.concatenate([w, w[:, :1]], axis=1)
    if k == 2:
        return A[None]
    if k == 3:
        return A[..., None]
    if k == 4 and A.ndim > 1:
        return A.ravel()
    if k == 5 and A.ndim > 1:
        return np.ascontiguousarray(A.T) if A.shape[0] != A.shape[1] else A[None]
    return A.ravel()[:1] if A.ndim > 1 else A.reshape(1, -1)


def bad_length(d, A):
    n = len(A)
    k = d.draw(3)
    if k == 0:
        return A[:-1]
    if k == 1:
        return np.concatenate([A, A[:1]])
    if k == 2:
        return A[:0]
    return np.concatenate([A, A])


def corrupt(d, an, inp):
    """(description, Input or (Input, system)) that must be rejected, or Discard."""
    kinds = []
    pos = an.name in POSITIONS
    if pos:
        kinds += ["points shape"]
        if an.query:
            kinds += ["query points shape"]
    if an.arrays:
        kinds += ["array shape"] * 2
        if an.name not in ("AngularSeparationGlobal", "Cubatic"):
            kinds += ["array length"] * 2
    if an.neighbors:
        kinds += ["neighbors"] * 2
    kind = d.choice(kinds) if kinds else None
    out = inp.copy()
    if kind == "points shape":
        out.P = bad_shape(d, inp.P)
        return kind, out
    if kind == "query points shape":
        if inp.Q is None:
            raise Discard("no query points")
        out.Q = bad_shape(d, inp.Q)
        return kind, out
    if kind in ("array shape", "array length"):
        k = d.choice(sorted(an.arrays) + (["idx"] if "idx" in inp.arr else []))
        if k not in inp.arr:
            raise Discard("array not given")
        for flag in ("keyed", "valued", "massed"):
            if flag in inp.prm:
                inp.prm[flag] = True
        out.arr[k] = bad_shape(d, inp.arr[k], an.name.startswith("PMFT")) if kind == "array shape" else \
            bad_length(d, inp.arr[k])
        return f"{kind} of {k}", out
    if kind == "neighbors":
        return "neighbors " + bad_neighbors(d, an, inp, out), out
    raise Discard("nothing to corrupt")


def bad_neighbors(d, an, inp, out):
    import freud

    n, m = len(inp.P), len(inp.q)
    k = d.draw(6)
    if k <= 1 and "list" in an.nbkinds:
        I = np.arange(min(m, n), dtype=int)
        dm, dn = ((1, 0), (0, 1), (0, -1), (-1, 0), (3, 5))[d.draw(4)]
        nn, mm = max(n + dn, len(I)), max(m + dm, len(I))
        if (nn, mm) == (n, m):
            raise Discard("same size")
        nl = freud.locality.NeighborList.from_arrays(mm, nn, I, I, np.zeros((len(I), 3), dtype=np.float32))
        out.nb = ("object", nl)
        return f"list of {mm} query points and {nn} points"
    a = {"mode": "ball", "r_max": 0.3 * inp.b.rhalf}
    if k == 2:
        a = {"mode": d.choice(("balls", "NEAREST", 3, "any")), "r_max": 1.0}
    elif k == 3:
        a[d.choice(("rmax", "num_neighbor", "foo", "exclude"))] = 1
    elif k == 4:
        a["r_max"] = d.choice((-1.0, 0.0, 10.0 * inp.b.rhalf))
    elif k == 5:
        a = d.choice(({"mode": "ball"}, {"mode": "nearest"}, {"mode": "nearest", "num_neighbors": 0},
                      {"mode": "nearest", "num_neighbors": -3}, {}))
    else:
        a = d.choice((3, "ball", [("r_max", 1.0)], object()))
    out.nb = ("object", a)
    return f"arguments {a!r}"


REJECTED = (ValueError, TypeError, RuntimeError, AttributeError, IndexError, NotImplementedError, KeyError,
            OverflowError)

# attributes that need a computation
COMPUTED = {
    "RDF": ("rdf", "n_r", "bin_counts", "box"),
    "LocalDensity": ("density", "num_neighbors", "box"),
    "CorrelationFunction": ("correlation", "bin_counts", "box"),
    "PMFTR12": ("pmft", "bin_counts", "box"),
    "PMFTXYT": ("pmft", "bin_counts", "box"),
    "PMFTXY": ("pmft", "bin_counts", "box"),
    "PMFTXYZ": ("pmft", "bin_counts", "box"),
    "BondOrder": ("bond_order", "box", "bin_counts"),
    "AngularSeparationNeighbor": ("angles", "nlist"),
    "AngularSeparationGlobal": ("angles",),
    "LocalBondProjection": ("projections", "normed_projections", "nlist"),
    "Hexatic": ("particle_order",),
    "Cluster": ("num_clusters", "cluster_idx", "cluster_keys"),
    "ClusterProperties": ("centers", "centers_of_mass", "gyrations", "inertia_tensors", "sizes", "cluster_masses",
                          "radii_of_gyration"),
    "Interface": ("point_count", "point_ids", "query_point_count", "query_point_ids"),
    "StaticStructureFactorDebye": ("S_k", "min_valid_k"),
    "GaussianDensity": ("density", "box"),
    "SphereVoxelization": ("voxels", "box"),
    "DiffractionPattern": ("diffraction", "k_values", "k_vectors", "N_points"),
    "Cubatic": ("order", "orientation", "particle_order", "global_tensor", "cubatic_tensor"),
    "RotationalAutocorrelation": ("order", "particle_order"),
    "MSD": ("msd", "particle_msd"),
    "FilterSANN": ("filtered_nlist", "unfiltered_nlist"),
    "FilterRAD": ("filtered_nlist", "unfiltered_nlist"),
    "PeriodicBuffer": ("buffer_points", "buffer_ids", "buffer_box"),
}
PLOTS = ("RDF", "LocalDensity", "CorrelationFunction", "PMFTR12", "PMFTXY", "Cluster", "StaticStructureFactorDebye",
         "GaussianDensity", "SphereVoxelization", "DiffractionPattern", "MSD")


def gated(an, o, when):
    for k in COMPUTED[an.name]:
        try:
            v = getattr(o, k)
        except AttributeError:
            continue
        require(False, f"{an.name}: {k} {when} does not raise AttributeError", got=v)
    if an.name in PLOTS and hasattr(type(o), "plot"):
        try:
            o.plot()
        except AttributeError:
            return
        require(False, f"{an.name}: plot {when} does not raise AttributeError")


def fixed_list(inp):
    """The Input with its neighbor list built."""
    return inp.copy(nb=("object", inp.nlist())) if inp.nb is not None and inp.nb[0] == "list" else inp


def recovery(d):
    """Invalid input is rejected; the object works before and after."""
    an = ALL[d.choice(NAMES)]
    inp = analyses.general(d, an, nmin=2, nmax=25)
    what, bad = corrupt(d, an, fixed_list(inp))
    d.note(corruption=what)
    d.label(an.name)
    want = an.run(inp)
    o = an.make(inp.prm)
    before = d.bool()
    if before:
        an.run(inp, o)
    try:
        an.compute(o, bad, bad.system())
    except REJECTED as e:
        require(in_freud(e), f"{an.name}: {what}: not rejected by freud: {e!r}")
        d.label(type(e).__name__)
    else:
        require(False, f"{an.name}: accepted {what}")
    if not before and o is not None:
        gated(an, o, "after a failed compute")
    got = an.run(inp, o)
    analyses.compare(f"{an.name}: after the rejected {what}", got, want)
    d.nontrivial()


def access(d):
    """Attributes raise before the first compute and work after it."""
    an = ALL[d.choice(sorted(COMPUTED))]
    inp = analyses.general(d, an, nmin=2, nmax=12)
    o = an.make(inp.prm)
    gated(an, o, "before compute")
    an.compute(o, inp, inp.system())
    for k in COMPUTED[an.name]:
        getattr(o, k)
    d.nontrivial()


def snapshot(inp):
    out = {"P": inp.P, "Q": inp.Q}
    out.update(inp.arr)
    out.update({k: v for k, v in inp.prm.items() if isinstance(v, np.ndarray)})
    if inp.nb is not None and inp.nb[0] == "object":
        nl = inp.nb[1]
        for k in ("query_point_indices", "point_indices", "distances", "vectors", "weights", "neighbor_counts",
                  "segments"):
            out["nlist " + k] = getattr(nl, k)
    return {k: np.array(v) for k, v in out.items() if v is not None}


def unmodified(d):
    """Arrays, lists and dictionaries given to an analysis stay as they are; results are not views of them."""
    an = ALL[d.choice(NAMES)]
    inp = fixed_list(analyses.general(d, an, nmax=40))
    before = snapshot(inp)
    args = dict(inp.nb[1]) if inp.nb is not None and inp.nb[0] == "args" else None
    o = an.make(inp.prm)
    r = an.run(inp, o)
    for _ in range(d.draw(2)):
        an.run(inp, o)
    after = snapshot(inp)
    for k, v in before.items():
        require(v.tobytes() == after[k].tobytes() and v.shape == after[k].shape, f"{an.name}: {k} modified",
                before=v, after=after[k])
    require(args is None or args == inp.nb[1], f"{an.name}: query arguments modified")
    # changing the input afterwards does not change the results
    for a in [inp.P, inp.Q] + list(inp.arr.values()):
        if a is not None:
            a[...] = 0
    analyses.compare(f"{an.name}: after overwriting the input", an.results(o, copies_input(inp, before)), r)
    d.nontrivial()


def copies_input(inp, before):
    o = inp.copy(P=before["P"], Q=before.get("Q"))
    o.arr = {k: before[k] for k in inp.arr}
    return o


def layout(d, a):
    """(name, a in another layout or type), with the same values."""
    a = np.array(a)
    k = d.draw(9)
    if k == 0:
        return "double", a.astype({"f": np.float64, "c": np.complex128}.get(a.dtype.kind, np.int64))
    if k == 1:
        return "Fortran order", np.asfortranarray(a)
    if k == 2:
        big = np.full((2 * len(a),) + a.shape[1:], 77, dtype=a.dtype)
        big[::2] = a
        return "every second row", big[::2]
    if k == 3 and a.ndim > 1:
        big = np.full(a.shape[:-1] + (a.shape[-1] + 2,), 77, dtype=a.dtype)
        big[..., 1:-1] = a
        return "columns of a larger array", big[..., 1:-1]
    if k == 4:
        return "list", a.tolist()
    if k == 5:
        b = a.copy()
        b.flags.writeable = False
        return "read-only", b
    if k == 6:
        return "swapped bytes", a.astype(a.dtype.newbyteorder())
    if k == 7:
        return "reversed strides", a[::-1].copy()[::-1]
    if k == 8:
        raw = np.zeros(a.nbytes + 1, dtype=np.uint8)
        b = raw[1:].view(a.dtype).reshape(a.shape) if a.nbytes else a
        b[...] = a
        return "unaligned", b
    if a.dtype.kind == "f" and a.ndim > 1:
        return "tuples", tuple(tuple(x) for x in a.tolist()) if a.ndim == 2 else a.tolist()
    return "subclass", a.view(np.ma.MaskedArray) if a.dtype.kind in "fc" else a


def layouts(d):
    """Arrays of other types and memory layouts."""
    an = ALL[d.choice(NAMES)]
    inp = fixed_list(analyses.general(d, an, nmax=40, style=d.choice(("uniform", "cluster", "lattice"))))
    want = an.run(inp)
    out = inp.copy()
    names = []
    for k in ["P", "Q"] + sorted(inp.arr):
        a = getattr(inp, k) if k in "PQ" else inp.arr[k]
        if a is None or d.bool(3):
            continue
        if np.asarray(a).dtype.kind == "c" and not np.any(np.imag(a)):
            continue
        nm, v = layout(d, a)
        if k == "weights" and isinstance(v, (list, tuple)):
            continue  # documented to be an ndarray
        names.append(f"{k}: {nm}")
        d.label(nm)
        if k in "PQ":
            setattr(out, k, v)
        else:
            out.arr[k] = v
    d.note(layouts=names)
    o = an.make(inp.prm)
    an.compute(o, out, out.system())
    analyses.compare(f"{an.name}: given {names}", an.results(o, inp), want)
    d.nontrivial(bool(names))


SUBS = [Sub(recovery, 1500), Sub(access, 150), Sub(unmodified, 1500), Sub(layouts, 2000)]
