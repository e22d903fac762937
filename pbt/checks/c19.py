"""C19: cluster properties."""

import numpy as np

from .. import gen, ref
from ..engine import Sub, close, equal, require, same_shape
from .c01 import circ_com

PROP = "C19"
RULE = ("2D and 3D boxes of any tilt, 1 to 60 points in 1 to 10 clusters (compact blobs anywhere in the box, also over "
        "faces, lines, or random assignment), labels interleaved and in any order, masses from 1e-3 to 1e3 or none. "
        "Oracle: float64 definitions over the members of each cluster with periodic circular means; clusters without a "
        "well-defined centre (resultant below 0.05) or with members half a box from it are compared by size and mass "
        "only. Metamorphic: permuted particles, relabelled clusters. Non-trivial: two clusters of different "
        "composition, one with at least three distinct members.")


def setup(d):
    b = gen.box(d)
    k = d.int(1, 6)
    style = d.choice(("blob", "blob", "random", "line"))
    counts = [d.int(1, 8) for _ in range(k)]
    g = d.rng()
    F, lab = [], []
    for c in range(k):
        centre = g.random(3) if d.bool() else np.array([d.choice((0.0, 0.5, 0.97)) for _ in range(3)])
        w = d.choice((0.01, 0.1, 0.3))
        for _ in range(counts[c]):
            if style == "random":
                F.append(g.random(3))
            elif style == "blob":
                F.append((centre + w * (g.random(3) - 0.5)) % 1)
            else:
                F.append((centre + w * (g.random() - 0.5) * np.array([1, 1, 0])) % 1)
            lab.append(c)
    n = len(F)
    P = gen.from_frac(b, np.array(F))
    names = d.perm(k)
    lab = names[np.array(lab)]
    p = g.permutation(n)
    P, lab = np.ascontiguousarray(P[p]), lab[p]
    masses = None
    if d.bool():
        kind = d.choice(("uniform", "wide", "equal"))
        masses = {"uniform": g.uniform(0.5, 3, n), "wide": np.exp(g.uniform(np.log(1e-3), np.log(1e3), n)),
                  "equal": np.full(n, 2.5)}[kind].astype(np.float32)
        d.label("masses:" + kind)
    d.note(box=b.desc(), points=P, cluster_idx=lab, masses=masses)
    d.label("2D" if b.is2D else "3D", b.kind, style)
    return b, P, lab, masses, k


NAMES = ("centers", "centers_of_mass", "gyrations", "inertia_tensors", "sizes", "cluster_masses", "radii_of_gyration")


def get(cp):
    return {k: np.array(getattr(cp, k)) for k in NAMES}


def definite(b, P, m):
    """Whether the centre and the wrapped separations from it are well defined."""
    c, amp = circ_com(b, P, m)
    f = ref.frac(b, P - c)[:, :b.dims]
    f = f - np.rint(f)
    slack = 0.5 - np.abs(f)
    return c, amp, amp.min() > 0.05 and slack.min() > 1e-4


def properties(d):
    import freud

    b, P, lab, masses, k = setup(d)
    cp = freud.cluster.ClusterProperties()
    if d.bool(4):
        cp.compute((b.fb, P), np.zeros(len(P)))
    cp.compute((b.fb, P), lab, masses)
    r = get(cp)
    shapes = {"centers": (k, 3), "centers_of_mass": (k, 3), "gyrations": (k, 3, 3), "inertia_tensors": (k, 3, 3),
              "sizes": (k,), "cluster_masses": (k,), "radii_of_gyration": (k,)}
    for x in NAMES:
        same_shape(x, r[x], shapes[x])
    m = np.ones(len(P)) if masses is None else masses.astype(float)
    distinct = 0
    for c in range(k):
        s = lab == c
        p, mc = P[s].astype(float), m[s]
        require(r["sizes"][c] == s.sum(), "sizes", cluster=c, got=r["sizes"][c], want=s.sum())
        close("cluster_masses", r["cluster_masses"][c], mc.sum(), rtol=1e-5, atol=0)
        distinct = max(distinct, len(np.unique(p, axis=0)))
        g0, a0, ok0 = definite(b, p, np.ones(len(p)))
        g1, a1, ok1 = definite(b, p, mc)
        sc = b.scale
        if ok0:
            t = 2e-6 * sc / a0.min() + ref.tol(b)
            dv = ref.wrap(b, r["centers"][c] - g0)[0]
            require(np.sqrt((dv ** 2).sum()) <= t, "centers", cluster=c, got=r["centers"][c], want=g0)
            D = ref.wrap(b, p - g0)
            G = np.einsum("ni,nj->ij", D, D) / len(p)
            ext = np.sqrt((D ** 2).sum(axis=1)).max()
            close("gyrations", r["gyrations"][c].astype(float), G, rtol=1e-5, atol=4 * (ext + t) * t, cluster=c)
        if ok1:
            t = 2e-6 * sc / a1.min() + ref.tol(b)
            dv = ref.wrap(b, r["centers_of_mass"][c] - g1)[0]
            require(np.sqrt((dv ** 2).sum()) <= t, "centers_of_mass", cluster=c, got=r["centers_of_mass"][c], want=g1)
            D = ref.wrap(b, p - g1)
            T = (np.einsum("n,nk,nk->", mc, D, D) * np.eye(3) - np.einsum("n,ni,nj->ij", mc, D, D))
            ext = np.sqrt((D ** 2).sum(axis=1)).max()
            at = 8 * (ext + t) * t * mc.sum()
            close("inertia_tensors", r["inertia_tensors"][c].astype(float), T, rtol=2e-5, atol=at, cluster=c)
            rg2 = np.trace(T) / (2 * mc.sum())
            close("radii_of_gyration", float(r["radii_of_gyration"][c]) ** 2, rg2, rtol=5e-5,
                  atol=at / mc.sum() * 2, cluster=c)
        d.label("definite" if ok0 and ok1 else "indefinite")
    d.nontrivial(k >= 2 and distinct >= 3)


def order(d):
    """Permuting particles and renaming clusters permutes the results; moving whole clusters by lattice vectors
    (through the face) changes nothing."""
    import freud

    b, P, lab, masses, k = setup(d)
    m = np.ones(len(P)) if masses is None else masses.astype(float)
    cp = freud.cluster.ClusterProperties()
    A = get(cp.compute((b.fb, P), lab, masses))
    p = d.perm(len(P))
    B = get(cp.compute((b.fb, P[p]), lab[p], None if masses is None else masses[p]))
    names = d.perm(k)
    C = get(cp.compute((b.fb, P), names[lab], masses))
    d.nontrivial(k >= 2)
    # translation with wrapping: the tensors are unchanged
    S = P.astype(float) + b.M @ np.array([d.unit() for _ in range(3)])
    S = np.asarray(b.fb.wrap(S.astype(np.float32)))
    if b.is2D:
        S[:, 2] = 0
    T = get(cp.compute((b.fb, S), lab, masses))
    for c in range(k):
        s = lab == c
        g0, a0, ok0 = definite(b, P[s].astype(float), np.ones(s.sum()))
        g1, a1, ok1 = definite(b, P[s].astype(float), m[s])
        if not (ok0 and ok1):
            continue
        t = 4e-6 * b.scale / min(a0.min(), a1.min()) + ref.tol(b)
        M = m[s].sum()
        R = b.scale
        tol = {"centers": t, "centers_of_mass": t, "gyrations": 8 * R * t, "inertia_tensors": 16 * R * t * M,
               "sizes": 0, "cluster_masses": 2e-5 * M}
        for x in tol:
            for name, other, cc in (("permuted", B, c), ("relabelled", C, names[c]), ("translated", T, c)):
                u, v = A[x][c], other[x][cc]
                if x.startswith("centers"):
                    if name == "translated":
                        continue
                    u, v = 0, np.sqrt((ref.wrap(b, v.astype(float) - A[x][c]) ** 2).sum())
                close(f"{x} {name}", v, u, rtol=2e-5, atol=tol[x], cluster=c)


SUBS = [Sub(properties, 4000), Sub(order, 2000)]
