"""C25: rotational autocorrelation."""

import numpy as np

from .. import gen, ref
from ..engine import Sub, close, raises, require

PROP = "C25"
RULE = ("Even l from 0 to 24 and 1 to 60 pairs of orientations (equal, opposite, special and random). Oracle: the "
        "closed form sin((l+1) t) / ((l+1) sin t), cos t the scalar part of the relative rotation, in float64 with "
        "its derivative as error bound; common rotations, order of particles. Non-trivial: l >= 2 and a value "
        "other than 1.")


def closed(l, c):
    """U_l(c) / (l + 1) by the recurrence of Chebyshev polynomials, and its error bound for an error of 1e-6 in c."""
    c = np.asarray(c, dtype=float)
    a, b = np.ones_like(c), 2 * c
    if l == 0:
        return a, np.full_like(c, 1e-6)
    for _ in range(l - 1):
        a, b = b, 2 * c * b - a
    # |U_l'| <= l (l + 1) (l + 2) / 3
    return b / (l + 1), np.full_like(c, 1e-6 * (l * (l + 2) / 3) + 3e-6)


def scalar(q0, q1):
    return ref.qmul(ref.qconj(q0.astype(float)), q1.astype(float))[..., 0]


def tolerance(l, c, q0, q1):
    """Bound on the error from float32 products (first order in the derivative, second order at its zeros)."""
    e = 6e-7
    lo = closed(l, np.clip(c - e, -1, 1))[0]
    hi = closed(l, np.clip(c + e, -1, 1))[0]
    n = np.abs((q0.astype(float) ** 2).sum(-1) * (q1.astype(float) ** 2).sum(-1) - 1)
    return np.abs(hi - lo) + l * (n + 6e-7) + 2e-6


def sets(d):
    n = gen.npts(d, 1, 60)
    q0 = gen.quats(d, n)
    q1 = gen.quats(d, n)
    for i in range(min(n, 12)):
        k = d.draw(5)
        if k == 1:
            q1[i] = q0[i]
        elif k == 2:
            q1[i] = -q0[i]
        elif k == 3:
            e = ref.qmul(q0[i], [np.sqrt(1 - 1e-3 ** 2), 1e-3, 0, 0])
            q1[i] = e
    d.note(ref=q0, orientations=q1)
    return q0, q1


def definition(d):
    import freud

    l = 2 * d.int(0, 12)
    q0, q1 = sets(d)
    o = freud.order.RotationalAutocorrelation(l)
    require(o.l == l, "l", got=o.l)
    if d.bool():
        o.compute(q1, q0[::-1])
    o.compute(q0, q1)
    c = scalar(q0, q1)
    want, _ = closed(l, c)
    tol = tolerance(l, c, q0, q1)
    p = np.asarray(o.particle_order)
    require(p.shape == (len(q0),), "particle_order: shape", got=p.shape)
    close("particle_order", p.real, want, rtol=0, atol=tol, l=l)
    close("particle_order: imaginary part", p.imag, np.zeros(len(q0)), rtol=0, atol=tol + 1e-5)
    close("order", o.order, p.real.astype(float).mean(), rtol=1e-5, atol=1e-6, l=l)
    d.nontrivial(l >= 2 and np.any(np.abs(want - 1) > 1e-3))


def invariance(d):
    import freud

    l = 2 * d.int(1, 8)
    q0, q1 = sets(d)
    n = len(q0)
    o = freud.order.RotationalAutocorrelation(l)
    a = np.array(o.compute(q0, q1).particle_order)
    fa = o.order
    tol = 2 * tolerance(l, scalar(q0, q1), q0, q1) + 4e-6 * l
    # identical orientations
    same = o.compute(q0, q0)
    close("identical orientations", np.array(same.particle_order).real, np.ones(n), rtol=0, atol=4e-6 * l + 1e-6)
    close("order of identical orientations", same.order, 1.0, rtol=0, atol=4e-6 * l + 1e-6)
    # a rotation of each particle and its reference in the lab frame
    r = np.array([gen.unit_quat(d) for _ in range(n)]) if n <= 8 else gen.quats(d, n).astype(float)
    b = o.compute(ref.qmul(r, q0).astype(np.float32), ref.qmul(r, q1).astype(np.float32))
    close("common rotation", np.array(b.particle_order), a, rtol=0, atol=4 * tol + 2e-6 * l ** 2)
    # exchange of reference and orientations
    b = o.compute(q1, q0)
    close("exchange", np.array(b.particle_order), a, rtol=0, atol=tol)
    # both signs
    b = o.compute(-q0, q1)
    close("sign", np.array(b.particle_order), a, rtol=0, atol=tol)
    # order of particles
    k = d.perm(n)
    b = o.compute(q0[k], q1[k])
    close("permuted particles", np.array(b.particle_order), a[k], rtol=0, atol=1e-7)
    close("order of permuted particles", b.order, fa, rtol=1e-5, atol=1e-6)
    d.nontrivial(n > 1)


def rejects(d):
    import freud

    l = d.choice((1, 3, 7, -1, -2, -4))
    require(raises(lambda: freud.order.RotationalAutocorrelation(l)), "invalid l accepted", l=l)
    n = d.int(2, 6)
    q = gen.quats(d, n)
    o = freud.order.RotationalAutocorrelation(2)
    require(raises(lambda: o.compute(q, q[:-1])), "inconsistent lengths accepted")
    require(raises(lambda: o.compute(q[:, :3], q[:, :3])), "wrong shape accepted")
    d.nontrivial()


SUBS = [Sub(definition, 700), Sub(invariance, 400), Sub(rejects, 30)]
