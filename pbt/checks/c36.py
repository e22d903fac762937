"""C36: nematic order."""

import numpy as np

from .. import gen, ref
from ..engine import Sub, close, raises, require, same_shape

PROP = "C36"
RULE = ("1 to 5000 orientation vectors of any length: uniform, around an axis (one or both ways), in a plane, identical, "
        "axis aligned; reused objects; 1 to 8 threads. Oracle: float64 tensors of the normalised vectors, largest "
        "eigenvalue of their mean, residual of the director. Metamorphic: signs, lengths, order and repetition of the "
        "vectors change nothing, a rotation rotates the tensors. Non-trivial: two or more distinct directions.")


def directions(d, n):
    g = d.rng()
    kind = d.choice(("uniform", "axis", "axes", "plane", "same", "aligned"))
    d.label(kind)
    U = g.normal(size=(n, 3))
    if kind in ("axis", "axes"):
        U = g.normal(size=3) * 3 + d.choice((0.01, 0.3, 1.0)) * U
        if kind == "axes":
            U *= g.choice([-1, 1], size=(n, 1))
    elif kind == "plane":
        U[:, d.draw(2)] = 0
    elif kind == "same":
        U[:] = U[0]
    elif kind == "aligned":
        U = np.eye(3)[g.integers(0, 3, n)] * g.choice([-1, 1], size=(n, 1))
    U = U * np.exp(g.uniform(-6, 6, (n, 1)) if d.bool() else 0)
    U[np.abs(U).max(axis=1) < 1e-4] = 1
    return U.astype(np.float32)


def tensors(U):
    U = U.astype(float)
    U /= np.sqrt((U ** 2).sum(axis=1))[:, None]
    return 1.5 * U[:, :, None] * U[:, None, :] - 0.5 * np.eye(3)


def definition(d):
    import freud

    n = d.int(1, 30) if not d.bool(6) else d.int(1000, 5000)
    o = freud.order.Nematic()
    if d.bool(3):
        o.compute(directions(d, d.int(1, 50)))
    U = directions(d, n)
    d.note(vectors=U)
    require(o.compute(U if d.bool() else U.astype(float)) is o, "compute returns the object")
    Q = tensors(U)
    close("particle_tensor", same_shape("particle_tensor", o.particle_tensor, (n, 3, 3)), Q, rtol=0, atol=1e-6)
    M = Q.mean(axis=0)
    close("nematic_tensor", same_shape("nematic_tensor", o.nematic_tensor, (3, 3)), M, rtol=0, atol=3e-6 + 6e-8 * n)
    ev = np.linalg.eigvalsh(M)
    close("order", o.order, ev[-1], rtol=0, atol=1e-5 + 1.2e-7 * n)
    u = same_shape("director", o.director, (3,)).astype(float)
    require(abs(u @ u - 1) < 1e-5, "the director is not a unit vector", director=u)
    close("the director is no eigenvector of the largest eigenvalue", M @ u, ev[-1] * u, rtol=0, atol=3e-5 + 1.2e-7 * n)
    d.nontrivial(n > 1 and ev[-1] < 0.999)


def metamorphic(d):
    import freud

    n = d.int(1, 40)
    U = directions(d, n)
    g = d.rng()
    how = d.choice(("sign", "length", "order", "repeat", "rotate"))
    d.label(how)
    R = np.eye(3)
    if how == "sign":
        V = U * g.choice([-1, 1], size=(n, 1))
    elif how == "length":
        V = U * g.choice([0.25, 4, 1000], size=(n, 1))
    elif how == "order":
        V = U[g.permutation(n)]
    elif how == "repeat":
        V = np.repeat(U, d.int(2, 5), axis=0)
    else:
        q = gen.unit_quat(d)
        R = np.array([ref.qrot(q, np.array(e, dtype=float)) for e in np.eye(3)]).T
        V = U @ R.T
    d.note(vectors=U, how=how)
    a, b = (freud.order.Nematic().compute(X.astype(np.float32)) for X in (U, V))
    close("order", b.order, a.order, rtol=0, atol=2e-5)
    close("nematic_tensor", b.nematic_tensor, R @ a.nematic_tensor @ R.T, rtol=0, atol=2e-5)
    require(0 - 1e-5 <= a.order <= 1 + 1e-5, "order out of range", order=a.order)
    d.nontrivial(n > 1)


def rejects(d):
    import freud

    n = d.int(1, 10)
    k = d.choice((4, 2, 1))
    d.nontrivial()
    require(raises(lambda: freud.order.Nematic().compute(np.ones((n, k), dtype=np.float32)), ValueError),
            "vectors of other than 3 components accepted", k=k)
    require(raises(lambda: freud.order.Nematic().order, AttributeError), "order before compute")


SUBS = [Sub(definition, 3000), Sub(metamorphic, 2000), Sub(rejects, 60)]
