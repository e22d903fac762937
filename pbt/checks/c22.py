"""C22: angular separations and local bond projections."""

import numpy as np

from .. import gen, ref
from ..engine import Sub, close, equal, fail, require
from . import common

PROP = "C22"
RULE = ("Random orientations (special ones, negated and equivalent ones common), rotation groups of order 1 to 24 in "
        "an arbitrary order (so that the first is an arbitrary element) with one or both signs, their cosets, and sets "
        "of rotations by small angles, random systems and "
        "neighbor specifications. Oracle: float64 quaternion algebra over all elements of the group, with the error "
        "of acos bounded. Non-trivial: at least two bonds (or separations) whose minimum is attained by an element "
        "other than the first.")

EPS = 2e-6


def acos_tol(theta):
    s = np.abs(np.sin(theta / 2))
    return np.minimum(2 * EPS / np.maximum(s, 1e-9), 2 * np.sqrt(2 * EPS)) + 2e-6


def group(d, near=True):
    kind = d.choice(("one", "c2", "c4", "oct", "c3", "cn", "near", "coset")[:8 if near else 6])
    s = np.sqrt(0.5)
    if kind == "one":
        e = np.array([[1.0, 0, 0, 0]])
    elif kind == "c2":
        e = np.array([[1.0, 0, 0, 0], [0, 1.0, 0, 0]])
    elif kind == "c3":
        # about a drawn axis
        u = gen.unit_quat(d)[1:]
        u = u / np.linalg.norm(u) if np.linalg.norm(u) > 0.1 else np.array([0, 0, 1.0])
        e = np.array([[1.0, 0, 0, 0], np.append(0.5, s * np.sqrt(1.5) * u), np.append(-0.5, s * np.sqrt(1.5) * u)])
    elif kind in ("cn", "near"):
        # about a drawn axis: by the multiples of 2 pi/n, or by some small angles (not a group)
        u = gen.unit_quat(d)[1:].astype(float)
        u = u / np.linalg.norm(u) if np.linalg.norm(u) > 0.1 else np.array([0, 0, 1.0])
        n = 2 + d.draw(6)
        w = np.arange(n) * (2 * np.pi / n if kind == "cn" else d.float(0.02, 0.5))
        w = np.concatenate([w[:1], w[1:][d.perm(n - 1)]])
        e = np.concatenate([np.cos(w / 2)[:, None], np.sin(w / 2)[:, None] * u], axis=1)
    elif kind == "c4":
        e = np.array([[1, 0, 0, 0], [s, 0, 0, s], [0, 0, 0, 1], [s, 0, 0, -s]], dtype=float)
    elif kind == "coset":
        # the rotations that take the particle to another orientation: one of them, then the group
        g = gen.unit_quat(d).astype(float)
        e = gen.rotation_choices()
        if d.bool():
            u = gen.unit_quat(d)[1:].astype(float)
            u = u / np.linalg.norm(u) if np.linalg.norm(u) > 0.1 else np.array([0, 0, 1.0])
            w = np.arange(3) * 2 * np.pi / 3
            e = np.concatenate([np.cos(w / 2)[:, None], np.sin(w / 2)[:, None] * u], axis=1)
        e = np.stack([ref.qmul(g, x.astype(float)) for x in e])
    else:
        e = gen.rotation_choices()
    both = d.bool()
    if both:
        e = np.concatenate([e, -e])
    if kind != "near" and d.bool():
        e = e[d.perm(len(e))]
    d.label("group:" + kind, "both" if both else "single")
    return e.astype(np.float32), both, kind not in ("near", "coset")


def orientations(d, n, E):
    q = gen.quats(d, n)
    # exactly equivalent or negated ones
    for i in range(1, min(n, 12)):
        k = d.draw(5)
        if k == 1:
            q[i] = -q[i - 1]
        elif k == 2:
            q[i] = ref.qmul(q[i - 1], E[d.draw(len(E) - 1)])
        elif k == 3:
            q[i] = q[i - 1]
    q = q.astype(float)
    return (q / np.linalg.norm(q, axis=1, keepdims=True)).astype(np.float32)


def separation(r, q, E):
    """min over the group of the angle from r (..., 4) to q (..., 4), and the index of the minimum."""
    E = E.astype(float)
    e0 = ref.qconj(E[0])
    cand = [q] + [ref.qmul(ref.qmul(q, e0), e) for e in E]
    s = np.stack([ref.qmul(c, ref.qconj(r))[..., 0] for c in cand], axis=-1)
    th = 2 * np.arccos(np.clip(s, -1, 1))
    return th.min(axis=-1), th.argmin(axis=-1)


def check_angles(name, got, want, both):
    got = np.asarray(got, dtype=float)
    require(got.shape == want.shape, f"{name}: shape", got=got.shape, want=want.shape)
    require(np.all((got >= 0) & (got <= 2 * np.pi + 1e-5)), f"{name}: out of range")
    if both:
        require(np.all(got <= np.pi + 1e-3), f"{name}: larger than pi", got=got.max() if got.size else 0)
    bad = np.abs(got - want) > acos_tol(want)
    if np.any(bad):
        k = tuple(int(x) for x in np.argwhere(bad)[0])
        fail(f"{name}: {int(bad.sum())} of {bad.size} angles wrong", at=k, got=got[k], want=want[k])


def neighbor(d):
    import freud

    s = gen.system(d, nmax=30)
    E, both, isgroup = group(d)
    B = common.bonds(d, s)
    q = orientations(d, len(s.P), E)
    kw = B.kw()
    if s.same and d.bool():
        qo = q
    else:
        qo = orientations(d, len(s.Q), E)
        kw["query_orientations"] = qo
    if len(E) > 1 or E[0, 0] != 1 or d.bool():
        kw["equiv_orientations"] = E
    o = freud.environment.AngularSeparationNeighbor()
    o.compute(B.sys, q, **kw)
    want, arg = separation(qo[B.I].astype(float), q[B.J].astype(float), E)
    check_angles("neighbor angles", o.angles, want, both)
    I, J, D, V, W = common.nl_arrays(o.nlist)
    equal("nlist query_point_indices", I, B.I)
    equal("nlist point_indices", J, B.J)
    close("nlist weights", W, B.W, rtol=1e-6, atol=0)
    d.nontrivial(len(B) >= 2 and (len(E) == 1 or np.any(arg > 1)))
    if both and isgroup and len(B):
        # invariance under signs and group elements
        sg = np.where(d.rng().random(len(q)) < 0.5, -1, 1)[:, None]
        g = E[d.rng().integers(0, len(E), len(q))].astype(float)
        q2 = (ref.qmul(q.astype(float), g) * sg).astype(np.float32)
        kw2 = dict(kw)
        if "query_orientations" not in kw2:
            kw2["query_orientations"] = qo
        o.compute(B.sys, q2, **kw2)
        check_angles("neighbor angles of equivalent orientations", o.angles, want, both)


def global_(d):
    import freud

    E, both, isgroup = group(d)
    n, m = gen.npts(d, 1, 40), d.int(1, 6)
    q = orientations(d, n, E)
    g = orientations(d, m, E)
    if d.bool(3):
        g[0] = q[d.draw(n - 1)]
    args = () if len(E) == 1 and E[0, 0] == 1 and d.bool() else (E,)
    o = freud.environment.AngularSeparationGlobal().compute(g, q, *args)
    want, arg = separation(q[:, None].astype(float) + np.zeros((n, m, 4)),
                           g[None].astype(float) + np.zeros((n, m, 4)), E)
    d.note(orientations=q, global_orientations=g, equiv=E)
    check_angles("global angles", o.angles, want, both)
    d.nontrivial(n * m >= 2 and (len(E) == 1 or np.any(arg > 1)))


def equivalent(d):
    """Equivalent orientations have separation zero."""
    import freud

    E, _, _ = group(d, near=False)
    E = np.concatenate([E, -E])
    n = d.int(2, 12)
    q0 = gen.unit_quat(d)
    k = np.array([d.draw(len(E) - 1) for _ in range(n)])
    q = ref.qmul(q0, E[k].astype(float))
    q = (q / np.linalg.norm(q, axis=1, keepdims=True)).astype(np.float32)
    b = gen.box(d)
    P = gen.points(d, b, n)
    I, J = [a.ravel() for a in np.meshgrid(np.arange(n), np.arange(n), indexing="ij")]
    nl = freud.locality.NeighborList.from_arrays(n, n, I, J, np.ones((n * n, 3), dtype=np.float32))
    a = freud.environment.AngularSeparationNeighbor().compute((b.fb, P), q, equiv_orientations=E, neighbors=nl).angles
    tol = 2 * np.sqrt(2 * EPS)
    require(np.all(a < tol), "neighbor angle of equivalent orientations is not zero", angles=a, q=q, equiv=E)
    a = freud.environment.AngularSeparationGlobal().compute(q[:1], q, E).angles
    require(np.all(a < tol), "global angle of equivalent orientations is not zero", angles=a, q=q, equiv=E)
    d.nontrivial(len(np.unique(k)) > 1)


def projection(d):
    import freud

    s = gen.system(d, nmax=30)
    E, both, isgroup = group(d)
    B = common.bonds(d, s)
    q = orientations(d, len(s.P), E)
    m = d.int(1, 4)
    proj = np.array([[d.choice((0.0, 1.0, -1.0)) if d.bool(3) else d.float(-2, 2) for _ in range(3)]
                     for _ in range(m)], dtype=np.float32)
    kw = B.kw()
    if len(E) > 1 or E[0, 0] != 1 or d.bool():
        kw["equiv_orientations"] = E
    o = freud.environment.LocalBondProjection().compute(B.sys, q, proj, **kw)
    loc = ref.qrot(ref.qconj(q[B.J].astype(float)), B.V) if len(B) else np.zeros((0, 3))
    Ed = E.astype(float)
    cand = [proj.astype(float)]
    for e in Ed:
        t = ref.qmul(ref.qconj(Ed[0]), e)
        cand.append(np.array([ref.qrot(t, p) for p in proj.astype(float)]))
    dots = np.stack([loc @ c.T for c in cand], axis=-1)
    want = dots.max(axis=-1) if len(B) else np.zeros((0, m))
    lp = np.linalg.norm(proj, axis=1)[None]
    lb = np.linalg.norm(B.V, axis=1)[:, None]
    tol = 4e-6 * lp * lb + ref.tol(s.b) * lp
    got = np.asarray(o.projections, dtype=float)
    gotn = np.asarray(o.normed_projections, dtype=float)
    require(got.shape == (len(B), m) and gotn.shape == (len(B), m), "projections: shape", got=got.shape)
    if np.any(np.abs(got - want) > tol):
        k = tuple(int(x) for x in np.argwhere(np.abs(got - want) > tol)[0])
        fail("projections: wrong", at=k, got=got[k], want=want[k], bond=B.V[k[0]], proj=proj, equiv=E,
             orientation=q[B.J[k[0]]])
    # the length of the bond as stored
    D = B.D[:, None] + np.zeros((1, m))
    ok = D > 50 * ref.tol(s.b)
    if np.any(ok):
        w = np.where(ok, want / np.where(ok, D, 1), 0)
        t = 6e-6 * lp + np.where(ok, 2 * ref.tol(s.b) * lp / np.where(ok, D, 1), 0)
        bad = ok & ~(np.abs(gotn - w) <= t)
        if np.any(bad):
            k = tuple(int(x) for x in np.argwhere(bad)[0])
            fail("normed_projections: wrong", at=k, got=gotn[k], want=w[k], bond=B.V[k[0]], distance=B.D[k[0]])
    I, J, DD, V, W = common.nl_arrays(o.nlist)
    equal("nlist query_point_indices", I, B.I)
    equal("nlist point_indices", J, B.J)
    d.nontrivial(len(B) >= 2 and (len(E) == 1 or np.any(dots.argmax(axis=-1) > 1)))


SUBS = [Sub(neighbor, 1500), Sub(global_, 1500), Sub(equivalent, 800), Sub(projection, 1500)]
