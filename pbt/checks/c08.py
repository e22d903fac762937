"""C08: query results do not depend on other queries or on the lifetime of objects."""

import gc

import numpy as np

from .. import gen, ref
from ..engine import Discard, Sub, equal, require
from . import common

PROP = "C08"
RULE = ("Histories of 4 to 30 steps over up to three search structures (tree, cell list, cell query, raw points) and "
        "their query results: start a query, step an iterator, finish it, convert to a neighbor list (again), delete "
        "and collect the structure, the result, the box or the point arrays, overwrite freed memory. Every consumption "
        "is compared with the answer of a fresh structure consumed at once (ball answers also with the all-pairs "
        "oracle). Non-trivial: at least two results were alive at once and one was consumed after another query or "
        "after a deletion.")


def make(kind, b, P, w):
    import freud

    P = np.array(P)
    if kind == "aabb":
        return freud.locality.AABBQuery(b.make(), P)
    if kind == "link":
        return freud.locality.LinkCell(b.make(), P, w)
    if kind == "cell":
        return freud.locality.CellQuery(b.make(), P)
    return freud.locality.NeighborQuery.from_system((b.make(), P))


def canon(bonds):
    return sorted((int(i), int(j), float(x)) for i, j, x in bonds)


def check_order(nl, by_distance):
    i, j, x = np.asarray(nl.query_point_indices), np.asarray(nl.point_indices), np.asarray(nl.distances)
    same = i[1:] == i[:-1]
    require(np.all(np.diff(i.astype(np.int64)) >= 0), "query point indices decrease in a list", by_distance=by_distance)
    k = x if by_distance else j.astype(np.int64)
    require(np.all(np.diff(k)[same] >= 0), "bonds of a query point are not in the requested order", by_distance=by_distance)


def snapshot(nl):
    return [np.array(x) for x in (nl[:], nl.distances, nl.vectors, nl.weights, nl.segments, nl.neighbor_counts)]


def change_list(d, nl):
    """Edits a neighbor list; no other result may notice."""
    how = d.choice(("filter_r", "filter", "sort", "none"))
    if how == "filter_r" and len(nl):
        nl.filter_r(float(d.choice([float(x) for x in nl.distances[:4]])) + 1e-3)
    elif how == "filter":
        nl.filter(np.arange(len(nl)) % 2 == 0)
    elif how == "sort":
        nl.sort(by_distance=d.bool())
    return how


def nl_bonds(nl):
    return [(int(i), int(j), float(x)) for (i, j), x in zip(np.asarray(nl[:]).tolist(), nl.distances)]


class Struct:
    pass


def new_struct(d, systems):
    s = d.choice(systems)
    st = Struct()
    st.s = s
    st.kind = d.weighted((3, "cell"), (2, "aabb"), (2, "link"), (1, "raw"))
    st.w = common.cell_widths(d, s.b, 400) if st.kind == "link" else 0.0
    st.obj = make(st.kind, s.b, s.P, st.w)
    st.cache = {}
    return st


def draw_query(d, st):
    s = st.s
    if st.kind == "cell" or d.bool():
        a = gen.ball_args(d, s.b)
        if "exclude_ii" not in a:
            a["exclude_ii"] = False
    else:
        a = {"num_neighbors": 1 + d.draw(5), "mode": "nearest", "exclude_ii": d.bool(),
             "r_max": gen.rmax(d, s.b, lo=0.4)}
        if d.bool():
            a["r_guess"] = float(np.float32(a["r_max"] * d.choice((0.05, 0.3, 0.9))))
    m = len(s.Q)
    if d.bool():
        Q = s.Q
    else:
        Q = s.Q[d.draw(m - 1):]
    return Q, a


def expected(st, Q, a):
    key = (len(Q), tuple(sorted(a.items())))
    if key not in st.cache:
        fresh = make(st.kind, st.s.b, st.s.P, st.w)
        res = fresh.query(np.array(Q), dict(a))
        bonds = list(res)
        if a["mode"] == "ball":
            I = np.array([x[0] for x in bonds], dtype=int)
            J = np.array([x[1] for x in bonds], dtype=int)
            D = np.array([x[2] for x in bonds], dtype=float)
            common.check_ball("fresh query", I, J, D, st.s.b, st.s.P, Q, a["r_max"], a.get("r_min", 0.0),
                              a["exclude_ii"])
        st.cache[key] = canon(bonds)
    return st.cache[key]


def trash():
    """Overwrites freed memory with other numbers."""
    gc.collect()
    x = [np.full(n, 7.7e7, dtype=np.float32) for n in (3, 6, 9, 12, 24, 30, 48, 60, 90, 120, 180, 300)]
    return len(x)


def history(d):
    systems = [gen.system(d, nmin=2, nmax=25, kinds=("cubic", "ortho", "mild"), wide=False, query=True)
               for _ in range(d.int(1, 2))]
    structs = [new_struct(d, systems) for _ in range(d.int(1, 3))]
    live = []  # (struct, Q, args, result or None, iterator or None, consumed bonds)
    lists = []  # (list, its content): lists made earlier do not change
    hist = []
    d.note(kinds=[x.kind for x in structs], history=hist)
    d.label(*[x.kind for x in structs])
    interleaved = deleted = 0
    for step in range(d.int(4, 30)):
        op = d.weighted((4, "query"), (3, "step"), (2, "finish"), (2, "list"), (1, "iterate"), (1, "delstruct"),
                        (1, "delresult"), (1, "trash"), (1, "new"))
        if op == "query":
            alive = [k for k, st in enumerate(structs) if st.obj is not None]
            if not alive:
                continue
            k = d.choice(alive)
            st = structs[k]
            Q, a = draw_query(d, st)
            hist.append([op, k, len(Q), a])
            q = np.array(Q)
            aa = dict(a)
            res = st.obj.query(q, aa)
            aa.clear()
            del q
            live.append([st, Q, a, res, None, []])
            if len(live) > 6:
                live.pop(0)
        elif op in ("step", "finish", "list", "iterate", "delresult"):
            if not live:
                continue
            k = d.draw(len(live) - 1)
            e = live[k]
            want = expected(e[0], e[1], e[2])
            hist.append([op, k])
            interleaved += len(live) > 1
            if op == "delresult":
                # an iterator stays valid after its query result is gone
                if e[4] is None and e[3] is not None:
                    e[4], e[5] = iter(e[3]), []
                e[3] = None
                deleted += 1
            elif op in ("step", "finish"):
                if e[4] is None:
                    if e[3] is None:
                        continue
                    e[4], e[5] = iter(e[3]), []
                for _ in range(1 + d.draw(5) if op == "step" else 10 ** 6):
                    try:
                        x = next(e[4])
                    except StopIteration:
                        require(canon(e[5]) == want, "iterated bonds differ from a fresh query", kind=e[0].kind,
                                args=e[2], got=canon(e[5])[:8], want=want[:8], n=[len(e[5]), len(want)])
                        e[4], e[5] = None, []
                        break
                    e[5].append((int(x[0]), int(x[1]), float(x[2])))
            elif e[3] is not None:
                if op == "list":
                    by_distance = d.bool()
                    nl = e[3].toNeighborList(sort_by_distance=by_distance)
                    check_order(nl, by_distance)
                    got = canon(nl_bonds(nl))
                    if got == want:
                        hist[-1].append(change_list(d, nl))
                        lists.append((nl, snapshot(nl)))
                else:
                    got = canon(e[3])
                require(got == want, f"bonds differ from a fresh query ({op})", kind=e[0].kind, args=e[2],
                        got=got[:8], want=want[:8], n=[len(got), len(want)])
        elif op == "delstruct":
            k = d.draw(len(structs) - 1)
            structs[k].obj = None
            deleted += 1
            hist.append([op, k])
            trash()
        elif op == "trash":
            trash()
            hist.append([op])
        elif op == "new":
            structs[d.draw(len(structs) - 1)] = new_struct(d, systems)
            hist.append([op])
    # everything still alive is consumed
    for e in live:
        want = expected(e[0], e[1], e[2])
        if e[4] is not None:
            got = canon(e[5] + [(int(x[0]), int(x[1]), float(x[2])) for x in e[4]])
            require(got == want, "iterated bonds differ from a fresh query", kind=e[0].kind, args=e[2], got=got[:8],
                    want=want[:8], n=[len(got), len(want)])
        if e[3] is not None:
            got = canon(nl_bonds(e[3].toNeighborList()))
            require(got == want, "bonds differ from a fresh query (at the end)", kind=e[0].kind, args=e[2],
                    got=got[:8], want=want[:8], n=[len(got), len(want)])
    for nl, snap in lists:
        for got, want in zip(snapshot(nl), snap):
            equal("a neighbor list after later queries", got, want)
    d.nontrivial(interleaved >= 2 and len(live) > 1)
    if deleted:
        d.label("deletions")


def repeat(d):
    """Repeating a query after others gives the same answer, in the same order."""
    s = gen.system(d, nmin=2, nmax=40, wide=False)
    kind = d.choice(("cell", "aabb", "link", "raw"))
    st = Struct()
    st.s, st.kind, st.w = s, kind, common.cell_widths(d, s.b, 400) if kind == "link" else 0.0
    nq = make(kind, s.b, s.P, st.w)
    d.label(kind)
    qs = [draw_query(d, st) for _ in range(d.int(1, 5))]
    d.note(kind=kind, queries=[[len(Q), a] for Q, a in qs])
    first = {}
    order = [d.draw(len(qs) - 1) for _ in range(d.int(2, 10))]
    n = 0
    for k in order:
        Q, a = qs[k]
        form = d.draw(1)
        if form:
            got = [(int(i), int(j), float(x)) for i, j, x in nq.query(Q, a)]
        else:
            got = nl_bonds(nq.query(Q, a).toNeighborList())
        n += len(got)
        if (k, form) in first:
            require(got == first[(k, form)], "a repeated query gives another answer", kind=kind, args=a, order=order,
                    got=got[:8], want=first[(k, form)][:8])
        first[(k, form)] = got
        other = first.get((k, 1 - form))
        if other is not None:
            require(canon(got) == canon(other), "iteration and list differ", kind=kind, args=a)
    d.nontrivial(len(order) > len(set(order)) and len(set(order)) > 1 and n > 0)
    for (k, form), got in first.items():
        f = make(kind, s.b, s.P, st.w).query(qs[k][0], qs[k][1])
        fresh = [(int(i), int(j), float(x)) for i, j, x in f] if form else nl_bonds(f.toNeighborList())
        require(canon(got) == canon(fresh), "a query on a used structure differs from a fresh one", kind=kind,
                args=qs[k][1], got=canon(got)[:8], want=canon(fresh)[:8], n=[len(got), len(fresh)])


def kept_views(d):
    """Arrays and lists obtained from results stay valid when everything else is gone."""
    import freud

    s = gen.system(d, nmin=3, nmax=30, wide=False, query=False)
    st = Struct()
    st.s, st.kind = s, d.choice(("cell", "aabb", "link", "raw"))
    st.w = common.cell_widths(d, s.b, 400) if st.kind == "link" else 0.0
    nq = make(st.kind, s.b, s.P, st.w)
    r = gen.rmax(d, s.b, lo=0.5)
    nl = nq.query(s.P, {"r_max": r, "exclude_ii": True, "mode": "ball"}).toNeighborList()
    if len(nl) == 0:
        raise Discard("no bonds")
    d.nontrivial(len(nl) > 3)
    d.note(kind=st.kind, r_max=r)
    held = {"pairs": nl[:], "vectors": nl.vectors, "distances": nl.distances, "weights": nl.weights,
            "i": nl.query_point_indices, "j": nl.point_indices, "counts": nl.neighbor_counts, "segments": nl.segments}
    rdf = freud.density.RDF(5, r)
    rdf.compute(nq, neighbors=nl)
    cl = freud.cluster.Cluster()
    cl.compute(nq, neighbors=nl, keys=np.arange(len(s.P)))
    held.update(rdf=rdf.rdf, counts2=rdf.bin_counts, edges=rdf.bin_edges, idx=cl.cluster_idx)
    fl = freud.locality.FilterRAD(allow_incomplete_shell=True, terminate_after_blocked=False)
    fl.compute(nq, neighbors=nl)
    held["filtered"] = fl.filtered_nlist[:]
    filt, unf = fl.filtered_nlist, fl.unfiltered_nlist
    rbox, rpts = rdf.box, nq.points
    snap = {k: np.array(v) for k, v in held.items()}
    fsnap, usnap = np.array(filt[:]), np.array(unf[:])
    desc = str(rbox)
    order = [k for k in ("nq", "nl", "rdf", "cl", "fl") if d.bool(1) or True]
    del nq, nl, rdf, cl, fl, order
    trash()
    for k, v in held.items():
        equal(f"{k} after its object is gone", v, snap[k])
    equal("filtered list after its filter is gone", filt[:], fsnap)
    equal("unfiltered list after its filter is gone", unf[:], usnap)
    equal("points after their structure is gone", rpts, s.P)
    require(str(rbox) == desc, "box after its analysis is gone")


SUBS = [Sub(history, 1500), Sub(repeat, 1800), Sub(kept_views, 800)]
