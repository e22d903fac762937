"""C18: clusters."""

import numpy as np

from .. import gen
from ..engine import Sub, close, equal, raises, require, same_shape
from . import common

PROP = "C18"
RULE = ("2D and 3D systems of 1 to 80 points (sometimes up to 1500), neighbors as lists (including random one-sided "
        "graphs, chains, stars and unions of paths in shuffled numbering), ball and nearest arguments, keys with "
        "repetitions. Oracle: union-find on the bonds; labels by size, then smallest member. Non-trivial: at least two "
        "clusters, one with at least two members.")


def components(n, I, J):
    p = list(range(n))

    def find(x):
        while p[x] != x:
            p[x] = p[p[x]]
            x = p[x]
        return x

    for i, j in zip(I.tolist(), J.tolist()):
        a, c = find(i), find(j)
        if a != c:
            p[max(a, c)] = min(a, c)
    return np.array([find(i) for i in range(n)])


def labels(root):
    """Cluster index by decreasing size, then smallest member (the root is the smallest)."""
    u, c = np.unique(root, return_counts=True)
    order = np.lexsort((u, -c))
    rank = np.empty(len(u), dtype=int)
    rank[order] = np.arange(len(u))
    return rank[np.searchsorted(u, root)], c[order]


def graph(d, n):
    """Bonds of a random graph over shuffled numbers."""
    kind = d.choice(("random", "paths", "stars", "forest", "cycles", "none", "dense"))
    d.label("graph:" + kind)
    g = d.rng()
    p = g.permutation(n)
    E = []
    if kind == "random":
        m = d.int(0, 2 * n)
        E = [(int(g.integers(n)), int(g.integers(n))) for _ in range(m)]
    elif kind == "paths":
        L = d.int(1, max(1, n))
        E = [(p[i], p[i + 1]) for i in range(n - 1) if (i + 1) % L]
    elif kind == "cycles":
        L = d.int(2, max(2, n))
        E = [(p[i], p[i + 1] if (i + 1) % L and i + 1 < n else p[i - i % L]) for i in range(n)]
    elif kind == "stars":
        L = d.int(1, max(1, n))
        E = [(p[i - i % L], p[i]) for i in range(n)]
    elif kind == "forest":
        c = d.int(1, n)
        E = [(p[i], p[int(g.integers(i))]) for i in range(1, n) if i % c]
    elif kind == "dense":
        c = d.int(1, 5)
        E = [(i, j) for i in range(n) for j in range(n) if i % c == j % c and g.random() < 0.5] if n < 60 else []
    if d.bool():
        E = [(j, i) if g.random() < 0.5 else (i, j) for i, j in E]
    E = sorted(set((int(i), int(j)) for i, j in E))
    a = np.array(E, dtype=int).reshape(-1, 2)
    return a[:, 0], a[:, 1]


def check(d, cl, n, I, J, keys):
    root = components(n, I, J)
    want, sizes = labels(root)
    got = same_shape("cluster_idx", cl.cluster_idx, (n,)).astype(int)
    require(cl.num_clusters == len(sizes), "num_clusters", got=cl.num_clusters, want=len(sizes))
    equal("cluster_idx", got, want, bonds=np.stack([I, J], axis=1)[:40])
    ck = cl.cluster_keys
    require(len(ck) == len(sizes), "number of key lists", got=len(ck), want=len(sizes))
    k = np.arange(n) if keys is None else np.asarray(keys)
    for c in range(len(sizes)):
        require(sorted(int(x) for x in ck[c]) == sorted(int(x) for x in k[want == c]), "cluster_keys", cluster=c,
                got=ck[c], want=k[want == c])
    d.nontrivial(len(sizes) >= 2 and sizes[0] >= 2)
    d.label(f"clusters:{min(len(sizes), 5)}")
    return want


def draw_keys(d, n):
    if d.bool():
        return None
    g = d.rng()
    return g.integers(0, d.choice((3, 1000, 2 ** 31)), n)


def geometry(d):
    import freud

    s = gen.system(d, nmax=80, query=False)
    n = len(s.P)
    B = common.bonds(d, s)
    keys = draw_keys(d, n)
    d.note(neighbors=B.neighbors if B.how != "list" else [B.I, B.J], keys=keys)
    cl = freud.cluster.Cluster()
    if d.bool(4):
        cl.compute((s.b.fb, s.P[:1]), neighbors={"r_max": 0.4 * s.b.rhalf})
    cl.compute(B.sys, keys=keys, neighbors=B.neighbors)
    check(d, cl, n, B.I, B.J, keys)


def graphs(d):
    import freud

    n = d.int(100, 1500) if d.bool(8) else d.int(1, 60)
    b = gen.BoxSpec(10, 10, 10)
    P = d.rng().uniform(-5, 5, (n, 3)).astype(np.float32)
    I, J = graph(d, n)
    m = len(I)
    V = np.ones((m, 3), dtype=np.float32)
    nl = freud.locality.NeighborList.from_arrays(n, n, I, J, V)
    keys = draw_keys(d, n)
    d.note(n=n, bonds=np.stack([I, J], axis=1), keys=keys)
    cl = freud.cluster.Cluster()
    for _ in range(1 + d.draw(1)):
        cl.compute((b.fb, P), keys=keys, neighbors=nl)
    want = check(d, cl, n, I, J, keys)
    # one more bond merges two clusters or changes nothing
    if n > 1:
        i, j = d.draw(n - 1), d.draw(n - 1)
        I2, J2 = np.append(I, i), np.append(J, j)
        o = np.lexsort((J2, I2))
        nl2 = freud.locality.NeighborList.from_arrays(n, n, I2[o], J2[o], np.ones((m + 1, 3)))
        cl.compute((b.fb, P), neighbors=nl2)
        require(cl.num_clusters == want.max() + 1 - int(want[i] != want[j]), "clusters after one more bond")


SUBS = [Sub(geometry, 3000), Sub(graphs, 3000)]
