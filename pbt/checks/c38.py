"""C38: environment clusters, motif matching and RMSD minimisation."""

import numpy as np

from .. import gen, ref
from ..engine import Discard, Sub, close, equal, require, same_shape

PROP = "C38"
RULE = ("1 to 12 points whose environments are lists of 0 to 7 drawn vectors: permuted and perturbed copies of a few "
        "templates (with registration also rotated), of equal and different sizes; comparisons by any list of pairs; "
        "reused objects; motifs. Matching is decided in float64: without registration by the unique partners within "
        "the threshold (ambiguous cases are discarded), with registration planted rotations must match and "
        "environments whose sorted lengths differ by the threshold must not. Clusters are the connected components of "
        "the similar compared pairs; point environments are permutations (up to one rotation) of the particle's "
        "vectors; cluster environments are their means. Non-trivial: a cluster of several points and several clusters.")


def environments(d, n, reg):
    """Per-particle lists of vectors (float32), threshold, template of each."""
    g = d.rng()
    k = d.int(1, 3)
    sizes = [d.int(3 if reg else 1, 5 if reg else 7) for _ in range(k)]
    if d.bool():
        sizes = sizes[:1] * k
    T = []
    for m in sizes:
        for _ in range(50):
            t = g.normal(size=(m, 3))
            t *= (0.8 + 0.6 * g.random(m) if not reg else np.linspace(0.8, 1.6, m))[:, None] / np.sqrt((t ** 2).sum(axis=1))[:, None]
            D = np.sqrt(((t[:, None] - t[None]) ** 2).sum(axis=2)) + 9 * np.eye(m)
            if D.min() > 0.45:
                break
        else:
            raise Discard("no template")
        T.append(t)
    if k > 1 and d.bool(3) and not reg:
        # a template that differs from another in one vector
        T[1] = T[0].copy()
        T[1][0] *= d.choice((-1, 1.2, 0.7, 1.05))
    noise = d.choice((0.0, 0.01, 0.03)) if not reg else d.choice((0.0, 1e-3))
    E, which = [], []
    for _ in range(n):
        c = int(g.integers(0, k))
        e = T[c] + noise * g.normal(size=T[c].shape)
        if reg and d.bool():
            q = gen.unit_quat(d)
            e = np.array([ref.qrot(q, v) for v in e])
        e = e[g.permutation(len(e))]
        if d.bool(12) and not reg:
            e = e[:0]
        E.append(e.astype(np.float32))
        which.append(c)
    return E, T, np.array(which), noise


def env_list(d, n, E):
    """A neighbor list with these vectors (the neighbors themselves do not matter, self bonds are skipped)."""
    import freud

    I, J, V = [], [], []
    g = d.rng()
    for i, e in enumerate(E):
        js = np.sort(np.array([(i + 1 + int(g.integers(0, n - 1))) % n for _ in e], dtype=int)) if n > 1 else np.zeros(0, int)
        # lists are ordered by query point, then point, then distance
        r = np.sqrt((e.astype(float) ** 2).sum(axis=1))
        o = np.lexsort((r, js))
        I += [i] * len(e)
        J += list(js[o])
        V += list(e[o])
        E[i] = e[o]
    if not I:
        raise Discard("no bonds")
    nl = freud.locality.NeighborList.from_arrays(n, n, np.array(I), np.array(J), np.array(V, dtype=np.float32))
    for i in range(n):
        E[i] = np.asarray(nl.vectors)[np.asarray(nl.query_point_indices) == i]
    return nl


def similar(a, b, thr, scale=1.0):
    """Whether two environments match without registration; None if it is not determined."""
    if len(a) != len(b) or not len(a):
        return False
    D = np.sqrt(((a.astype(float)[:, None] - b.astype(float)[None]) ** 2).sum(axis=2))
    if np.any(np.abs(D - thr) < 1e-5):
        return None
    M = D < thr
    r, c = M.sum(axis=1), M.sum(axis=0)
    if np.any(r == 0) or np.any(c == 0):
        return False
    if np.all(r == 1) and np.all(c == 1):
        return True
    return None  # the partners depend on the order


def components(n, pairs):
    lab = list(range(n))

    def find(x):
        while lab[x] != x:
            x = lab[x]
        return x

    for i, j in pairs:
        lab[find(i)] = find(j)
    return np.array([find(x) for x in range(n)])


def is_permutation(name, got, want, tol, **info):
    got, want = np.asarray(got, dtype=float).reshape(-1, 3), np.asarray(want, dtype=float).reshape(-1, 3)
    require(got.shape == want.shape, f"{name}: number of vectors", got=got.shape, want=want.shape, **info)
    used = set()
    for v in got:
        D = np.sqrt(((want - v) ** 2).sum(axis=1))
        for k in used:
            D[k] = np.inf
        k = int(np.argmin(D))
        require(D[k] <= tol, f"{name}: vectors differ", vector=v, nearest=D[k], **info)
        used.add(k)


def gram_equal(name, got, want, tol, **info):
    """got is a rotation of want, in any order: equal sorted lengths (and determinants of triples for small sets)."""
    a, b = (np.sort(np.sqrt((np.asarray(x, dtype=float).reshape(-1, 3) ** 2).sum(axis=1))) for x in (got, want))
    require(a.shape == b.shape, f"{name}: number of vectors", **info)
    close(f"{name}: lengths", a, b, rtol=0, atol=tol, **info)


def new_system(d):
    n = d.int(2, 12)
    b = gen.box(d, dims=3, kinds=("cubic", "ortho", "mild"), wide=False, Lmin=6)
    P = gen.points(d, b, n, "uniform")
    return b, P, n


def compare_clusters(o, want, n, E, reg, tol):
    got = same_shape("cluster_idx", o.cluster_idx, (n,)).astype(int)
    m = {}
    for a, c in zip(want, got):
        require(m.setdefault(int(a), int(c)) == c, "similar environments in different clusters", got=got, want=want)
    require(len(set(m.values())) == len(m), "different environments in one cluster", got=got, want=want)
    require(o.num_clusters == len(m), "num_clusters", got=o.num_clusters, want=len(m))
    require(set(got) == set(range(len(m))), "cluster labels are not 0..num_clusters-1", got=got)
    pe = o.point_environments
    require(len(pe) == n, "number of point_environments", got=len(pe), want=n)
    for i in range(n):
        if reg:
            gram_equal("point_environments", pe[i], E[i], tol, particle=i)
        else:
            is_permutation("point_environments", pe[i], E[i], 1e-6, particle=i)
    ce = o.cluster_environments
    require(len(ce) == len(m), "number of cluster_environments", got=len(ce), want=len(m))
    for c in range(len(m)):
        mean = np.mean([np.asarray(pe[i], dtype=float).reshape(-1, 3) for i in np.nonzero(got == c)[0]], axis=0)
        close("cluster_environments", np.asarray(ce[c], dtype=float).reshape(-1, 3), mean, rtol=0, atol=1e-5, cluster=c)
    return got


def pair_list(d, n):
    import freud

    g = d.rng()
    p = d.choice((0.15, 0.4, 1.0))
    pairs = [(i, j) for i in range(n) for j in range(n) if g.random() < p]
    if not pairs:
        pairs = [(0, n - 1)]
    I, J = np.array(pairs).T
    V = g.normal(size=(len(I), 3)).astype(np.float32)
    return pairs, freud.locality.NeighborList.from_arrays(n, n, I, J, V)


def clusters(d):
    import freud

    b, P, n = new_system(d)
    E, T, which, noise = environments(d, n, False)
    el = env_list(d, n, E)
    thr = float(np.float32(d.choice((0.1, 0.2, 0.05, 0.15))))
    pairs, cl = pair_list(d, n)
    d.note(box=b.desc(), environments=[e for e in E], pairs=pairs, threshold=thr)
    sim = []
    for i, j in pairs:
        s = similar(E[i], E[j], thr)
        if s is None:
            raise Discard("ambiguous")
        if s:
            sim.append((i, j))
    o = freud.environment.EnvironmentCluster()
    if d.bool():
        o.compute((b.fb, gen.points(d, b, 5, "uniform")), 0.3, {"num_neighbors": 2, "r_max": 0.9 * b.rhalf})
    o.compute((b.fb, P), thr, cl, el)
    # merging permutes the members' vectors so that they correspond: every member is compared as it was
    want = components(n, sim)
    got = compare_clusters(o, want, n, E, False, 0)
    # members of a cluster correspond vector by vector through chains of similar pairs
    pe = o.point_environments
    for i, j in sim:
        if i != j:
            k = np.sqrt(((np.asarray(pe[i], dtype=float) - np.asarray(pe[j], dtype=float)) ** 2).sum(axis=1))
            tree = max(np.bincount(got))
            require(np.all(k < thr * max(1, tree - 1) + 1e-4), "corresponding vectors of similar environments are apart", i=i, j=j,
                    distances=k)
    cnt = np.bincount(got)
    d.nontrivial(cnt.max() > 1 and len(cnt) > 1)


def motif(d):
    import freud

    b, P, n = new_system(d)
    E, T, which, noise = environments(d, n, False)
    el = env_list(d, n, E)
    thr = float(np.float32(d.choice((0.1, 0.2, 0.05))))
    m = T[d.draw(len(T) - 1)].astype(np.float32)
    m = m[d.rng().permutation(len(m))]
    if np.abs(ref.frac(b, m.astype(float))).max() > 0.49:
        raise Discard("the motif is wrapped")
    d.note(box=b.desc(), environments=[e for e in E], motif=m, threshold=thr)
    want = [similar(m, e, thr) for e in E]
    if any(w is None for w in want):
        raise Discard("ambiguous")
    o = freud.environment.EnvironmentMotifMatch()
    if d.bool():
        o.compute((b.fb, gen.points(d, b, 5, "uniform")), m, 0.3, {"num_neighbors": 2, "r_max": 0.9 * b.rhalf})
    o.compute((b.fb, P), m, thr, el)
    equal("matches", np.asarray(o.matches), np.array(want))
    pe = o.point_environments
    require(len(pe) == n, "number of point_environments", got=len(pe), want=n)
    for i in range(n):
        is_permutation("point_environments", pe[i], E[i], 1e-6, particle=i)
        if want[i]:
            k = np.sqrt(((np.asarray(pe[i], dtype=float) - m) ** 2).sum(axis=1))
            require(np.all(k < thr + 1e-5), "vectors of a match do not correspond to the motif's", particle=i, distances=k)
    d.nontrivial(any(want) and not all(want))


def registered(d):
    """Rotated copies match with registration, environments of other lengths do not."""
    import freud

    b, P, n = new_system(d)
    E, T, which, noise = environments(d, n, True)
    el = env_list(d, n, E)
    thr = 0.12
    pairs, cl = pair_list(d, n)
    d.note(box=b.desc(), environments=[e for e in E], pairs=pairs, which=which)

    def lengths(e):
        return np.sort(np.sqrt((np.asarray(e, dtype=float) ** 2).sum(axis=1)))

    def sim(a, wa, c, wc):
        if len(a) != len(c):
            return False
        if wa == wc:
            return True
        if np.abs(lengths(a) - lengths(c)).max() > thr + 1e-3:
            return False
        return None

    for t in T:
        # three vectors that pin down the rotation
        for x in range(len(t)):
            for y in range(x):
                c = np.linalg.norm(np.cross(t[x], t[y])) / np.linalg.norm(t[x]) / np.linalg.norm(t[y])
                if c < 0.3:
                    raise Discard("nearly parallel vectors")
    if d.bool():
        S = []
        for i, j in pairs:
            s = sim(E[i], which[i], E[j], which[j])
            if s is None:
                raise Discard("undetermined")
            if s:
                S.append((i, j))
        o = freud.environment.EnvironmentCluster()
        if d.bool():
            o.compute((b.fb, gen.points(d, b, 5, "uniform")), 0.3, {"num_neighbors": 3, "r_max": 0.9 * b.rhalf})
        o.compute((b.fb, P), thr, cl, el, registration=True)
        got = compare_clusters(o, components(n, S), n, E, True, 2e-3)
        pe = o.point_environments
        for i, j in S:
            k = np.sqrt(((np.asarray(pe[i], dtype=float) - np.asarray(pe[j], dtype=float)) ** 2).sum(axis=1))
            require(np.all(k < thr + 0.1 * noise + 1e-4), "corresponding vectors of registered environments are apart", i=i, j=j, distances=k)
        cnt = np.bincount(got)
        d.nontrivial(cnt.max() > 1)
        d.label("cluster")
    else:
        c = d.draw(len(T) - 1)
        q = gen.unit_quat(d)
        m = np.array([ref.qrot(q, v) for v in T[c]])[d.rng().permutation(len(T[c]))].astype(np.float32)
        if np.abs(ref.frac(b, m.astype(float))).max() > 0.49:
            raise Discard("the motif is wrapped")
        want = [sim(m, c, E[i], which[i]) for i in range(n)]
        d.note(motif=m)
        if any(w is None for w in want):
            raise Discard("undetermined")
        o = freud.environment.EnvironmentMotifMatch()
        o.compute((b.fb, P), m, thr, el, registration=True)
        equal("matches", np.asarray(o.matches), np.array(want))
        pe = o.point_environments
        for i in range(n):
            gram_equal("point_environments", pe[i], E[i], 1e-4, particle=i)
            if want[i]:
                k = np.sqrt(((np.asarray(pe[i], dtype=float) - m) ** 2).sum(axis=1))
                require(np.all(k < thr), "registered vectors of a match do not correspond to the motif's", particle=i, distances=k)
        d.nontrivial(any(want))
        r = freud.environment._EnvironmentRMSDMinimizer()
        if d.bool():
            r.compute((b.fb, P[:2]), m, {"num_neighbors": 1, "r_max": 0.9 * b.rhalf}, registration=True)
        r.compute((b.fb, P), m, el, registration=True)
        R = same_shape("rmsds", r.rmsds, (n,))
        for i in range(n):
            if len(E[i]) != len(m):
                require(R[i] == -1, "rmsd of an environment of another size", rmsd=R[i])
            else:
                if want[i]:
                    require(R[i] <= 10 * noise + 1e-3, "rmsd of a rotated copy", rmsd=R[i], particle=i)
        d.label("motif")


def isolated(d):
    """Particles without neighbors match nothing, with or without registration."""
    import freud

    n = d.int(2, 6)
    P = np.zeros((n, 3), dtype=np.float32)
    P[:, 0] = np.arange(n) * 3 - 1.5 * n
    box = freud.box.Box.cube(3 * n + 6)
    reg = d.bool()
    cl = freud.locality.NeighborList.all_pairs((box, P))
    o = freud.environment.EnvironmentCluster().compute((box, P), 0.3, cl, {"r_max": 1.0, "exclude_ii": True}, registration=reg)
    equal("cluster_idx", np.sort(np.asarray(o.cluster_idx)), np.arange(n))
    require(all(len(e) == 0 for e in o.point_environments), "vectors of isolated particles")
    m = freud.environment.EnvironmentMotifMatch().compute((box, P), np.eye(3)[:d.int(1, 3)], 0.3, {"r_max": 1.0, "exclude_ii": True},
                                                          registration=reg)
    require(not np.any(m.matches), "isolated particles match a motif")
    d.nontrivial()


SUBS = [Sub(clusters, 3000), Sub(motif, 2000), Sub(registered, 1200), Sub(isolated, 40)]
