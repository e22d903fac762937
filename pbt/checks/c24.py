"""C24: cubatic order."""

import numpy as np

from .. import gen, ref
from ..engine import Discard, Sub, close, equal, fail, raises, require

PROP = "C24"
RULE = ("Random sets of 1 to 40 orientations (random, identical, equivalent under cubic rotations, clustered around "
        "one), seeds, temperatures, scales and numbers of replicates. Oracle: the tensors of the definition in "
        "float64 evaluated at the reported orientation, cubic rotations of single particles, the order a cubatic "
        "order parameter must reach for identical orientations, repetition after other computations. Non-trivial: "
        "at least two distinct orientations.")

I3 = np.eye(3)
R4 = 0.4 * (np.einsum("ij,kl->ijkl", I3, I3) + np.einsum("ik,jl->ijkl", I3, I3) + np.einsum("il,jk->ijkl", I3, I3))


def tensor(q):
    """The cubatic tensor of a quaternion."""
    M = np.array([ref.qrot(np.asarray(q, dtype=float), e) for e in I3])
    return 2 * np.einsum("ai,aj,ak,al->ijkl", M, M, M, M) - R4


def order(M, G):
    return 1 - ((G - M) ** 2).sum() / (M ** 2).sum()


def orientation_set(d):
    n = d.int(1, 40) if d.bool(3) else d.int(1, 8)
    kind = d.choice(("random", "near", "cubic", "same"))
    d.label(kind)
    if kind == "random":
        q = gen.quats(d, n)
    else:
        q0 = gen.unit_quat(d)
        q = np.tile(q0, (n, 1))
        if kind == "cubic":
            C = gen.rotation_choices()
            q = ref.qmul(q, C[[d.draw(23) for _ in range(n)]])
        elif kind == "near":
            w = d.choice((0.05, 0.3))
            q = q + d.rng().normal(scale=w, size=q.shape)
            q /= np.linalg.norm(q, axis=1, keepdims=True)
        sg = np.array([d.choice((1, -1)) for _ in range(n)])[:, None]
        q = q * sg
    d.note(orientations=q)
    return kind, np.ascontiguousarray(q.astype(np.float32))


def params(d, reps=6):
    t0 = d.choice((5.0, 1.0, 0.1))
    if d.bool(4):
        # slow cooling: ended by the limit on the number of steps; hardly any uphill step when it is cold
        d.label("slow")
        t0 = d.choice((1e-3, 0.1, 5.0))
        return dict(t_initial=t0, t_final=t0 * d.choice((0.01, 0.9)), scale=d.choice((0.99999, 0.9999)),
                    n_replicates=d.int(1, 2), seed=d.draw(2 ** 20))
    return dict(t_initial=t0, t_final=d.choice((0.001, 0.01, t0 / 2)), scale=d.choice((0.9, 0.5, 0.95, 0.2)),
                n_replicates=d.int(1, reps), seed=d.draw(2 ** 20))


def check(o, q, tol=3e-5):
    """The outputs of the compute object o satisfy their definitions."""
    n = len(q)
    qd = q.astype(float)
    M = np.asarray(o.orientation, dtype=float)
    require(M.shape == (4,), "orientation: shape", got=M.shape)
    require(abs(np.linalg.norm(M) - 1) < 1e-4, "orientation is not a unit quaternion", got=M)
    T = np.array([tensor(x) for x in qd])
    G = T.mean(axis=0)
    close("global_tensor", o.global_tensor, G, rtol=0, atol=tol)
    CT = tensor(M / np.linalg.norm(M))
    close("cubatic_tensor", o.cubatic_tensor, CT, rtol=0, atol=tol + 4e-4)
    close("order", o.order, order(np.asarray(o.cubatic_tensor, dtype=float), G), rtol=0, atol=tol)
    require(o.order <= 1 + 1e-5, "order above one", got=o.order)
    close("particle_order", o.particle_order, np.array([order(t, G) for t in T]), rtol=0, atol=tol)
    require(np.asarray(o.particle_order).shape == (n,), "particle_order: shape")
    return T, G


def definition(d):
    import freud

    kind, q = orientation_set(d)
    p = params(d)
    o = freud.order.Cubatic(**p)
    for k, v in p.items():
        require(abs(getattr(o, k) - v) <= 1e-6 * abs(v), f"parameter {k}", got=getattr(o, k), want=v)
    o.compute(q)
    T, G = check(o, q)
    # the annealing keeps the best replicate, no worse than what a random orientation gives
    d.nontrivial(len(q) > 1 and kind in ("random", "near"))
    # repeated with other computations in between, and by another object
    first = [np.array(getattr(o, k)) for k in ("order", "orientation", "particle_order", "global_tensor",
                                               "cubatic_tensor")]
    _, q2 = orientation_set(d)
    o.compute(q2)
    check(o, q2)
    o2 = freud.order.Cubatic(**p).compute(q2)
    for k in ("order", "orientation", "particle_order", "global_tensor", "cubatic_tensor"):
        equal(f"{k}: object used before", getattr(o, k), getattr(o2, k))
    o.compute(q)
    for k, v in zip(("order", "orientation", "particle_order", "global_tensor", "cubatic_tensor"), first):
        equal(f"{k}: repeated computation", getattr(o, k), v)


def identical(d):
    """Identical (or cubically equivalent) orientations have order one."""
    import freud

    n = d.int(1, 12)
    q0 = gen.unit_quat(d)
    q = np.tile(q0, (n, 1))
    if d.bool():
        C = gen.rotation_choices()
        q = ref.qmul(q, C[[d.draw(23) for _ in range(n)]])
    q = np.ascontiguousarray(q.astype(np.float32))
    d.note(orientations=q)
    o = freud.order.Cubatic(t_initial=5, t_final=1e-4, scale=0.9, n_replicates=d.int(12, 20), seed=d.draw(2 ** 20))
    o.compute(q)
    check(o, q)
    require(o.order > 0.97, "order of identical orientations is not one", got=o.order)
    close("particle_order", o.particle_order, np.ones(n), rtol=0, atol=1e-4)
    d.nontrivial(n > 1)


def replicates(d):
    """More replicates never give a lower order, and the first ones are the same."""
    import freud

    kind, q = orientation_set(d)
    p = params(d)
    p["t_final"] = p["t_initial"] / 3
    last = -np.inf
    for r in sorted({1, d.int(2, 5), d.int(6, 40)}):
        p["n_replicates"] = r
        v = freud.order.Cubatic(**p).compute(q).order
        require(v >= last - 1e-7, "more replicates give a lower order", n_replicates=r, got=v, before=last)
        last = v
    d.nontrivial(len(q) > 1 and kind in ("random", "near"))


def equivalent(d):
    """Cubic rotations and signs of single particles leave the global tensor and particle orders unchanged."""
    import freud

    kind, q = orientation_set(d)
    n = len(q)
    C = gen.rotation_choices()
    k = np.array([d.draw(23) for _ in range(n)])
    sg = np.array([d.choice((1, -1)) for _ in range(n)])[:, None]
    q2 = np.ascontiguousarray((ref.qmul(q.astype(float), C[k]) * sg).astype(np.float32))
    p = params(d, 2)
    a = freud.order.Cubatic(**p).compute(q)
    b = freud.order.Cubatic(**p).compute(q2)
    close("global_tensor of equivalent particles", b.global_tensor, np.array(a.global_tensor), rtol=0, atol=3e-5)
    close("particle_order of equivalent particles", b.particle_order, np.array(a.particle_order), rtol=0, atol=5e-5)
    d.nontrivial(n > 1 and np.any(k))


def seeds(d):
    """The seed selects the random numbers: not every seed gives the same annealing."""
    import freud

    kind, q = orientation_set(d)
    p = params(d, 2)
    found = set()
    chosen = sorted({d.draw(2 ** 20) for _ in range(8)})
    if len(chosen) < 6:
        raise Discard("equal seeds")
    for s in chosen:
        p["seed"] = s
        found.add(np.asarray(freud.order.Cubatic(**p).compute(q).orientation).tobytes())
    require(len(found) > 1, "the orientation does not depend on the seed", **p)
    d.nontrivial(len(q) > 1)


def bad_parameters(d):
    import freud

    p = dict(t_initial=5.0, t_final=0.1, scale=0.5)
    p.update(d.choice((dict(t_initial=0.05), dict(t_final=0.0), dict(t_final=-1.0), dict(scale=0.0), dict(scale=1.0),
                       dict(scale=-0.5), dict(scale=2.0))))
    require(raises(lambda: freud.order.Cubatic(**p)), "invalid parameters accepted", **p)
    d.nontrivial()


SUBS = [Sub(definition, 400), Sub(identical, 120), Sub(replicates, 150), Sub(equivalent, 300), Sub(seeds, 60), Sub(bad_parameters, 30)]
