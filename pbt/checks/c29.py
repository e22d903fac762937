"""C29: threads, repetition and the thread-limiting context."""

import numpy as np

from .. import gen, helper
from ..engine import Sub, equal, fail, require
from . import analyses

PROP = "C29"
RULE = ("Every analysis on random systems from a few points to some thousand bonds and several hundred points, run "
        "in this process with random thread counts, in processes restricted to 1, 2 and 3 CPUs (which changes how "
        "loops are cut into chunks), repeatedly, on a fresh object and on one used for another input before. "
        "Oracle: the results agree (integers, indices and lists exactly, sums up to rounding; the same object and "
        "number of threads on one thread bit for bit). Histories of nested and failing thread-limiting contexts "
        "against a stack. Non-trivial: results that are not all zero.")

REMOTE = {n: helper.Remote(n) for n in (1, 2, 3)}
NAMES = sorted(analyses.ALL)


def nonzero(r):
    for kind, a, _ in r.values():
        for x in (a if isinstance(a, tuple) else (a,)):
            x = np.asarray(x)
            if x.size and np.any(np.isfinite(x) & (x != 0)):
                return True
    return False


def problem(d):
    an = analyses.ALL[d.choice(NAMES)]
    n = d.choice((None, None, d.int(50, 150), d.int(150, 600)))
    if n and an.name in ("StaticStructureFactorDebye", "FilterRAD", "FilterSANN"):
        n = min(n, 150)
    inp = analyses.general(d, an, n=n, style="uniform" if n else None, kinds=("ball", "list", "nearest", "default")
                           if not n or n < 200 else ("ball", "default", "nearest"))
    if n:
        d.label("large")
    return an, inp


def threads(d):
    import freud

    before = freud.parallel.get_num_threads()
    an, inp = problem(d)
    ts = [d.choice((1, 2, 8)), d.choice((3, 4, 5, 16))]
    res = []
    for t in ts:
        with freud.parallel.NumThreads(t):
            require(freud.parallel.get_num_threads() == t, "number of threads in the context")
            res.append(an.run(inp))
    require(freud.parallel.get_num_threads() == before, "the context does not restore the number of threads")
    d.nontrivial(nonzero(res[0]))
    analyses.compare(f"{an.name}: {ts[1]} threads against {ts[0]}", res[1], res[0])


def processes(d):
    an, inp = problem(d)
    here = an.run(inp)
    n = d.choice((1, 2, 3))
    state, r = REMOTE[n].run(an.name, inp, d.choice((None, 1, 2)))
    require(state == "ok", f"{an.name}: fails on {n} CPUs", state=state, result=r)
    d.nontrivial(nonzero(here))
    analyses.compare(f"{an.name}: {n} CPUs against {'all'}", r, here)


def repeated(d):
    import freud

    an, inp = problem(d)
    one = d.bool()
    with freud.parallel.NumThreads(1 if one else d.choice((2, 4, 8))):
        a = an.run(inp)
        b = an.run(inp)
        d.nontrivial(nonzero(a))
        analyses.compare(f"{an.name}: computed again by another object", b, a)
        if one:
            analyses.identical(f"{an.name}: computed again on one thread", b, a)
        # an object used before; the result of the same object computed twice
        if an.make(inp.prm) is not None:
            o = an.make(inp.prm)
            inp2 = other(d, an, inp)
            an.run(inp2, o)
            c = an.run(inp, o)
            analyses.compare(f"{an.name}: object used before", c, a)
            e = an.run(inp, o)
            analyses.compare(f"{an.name}: computed twice", e, c)


def other(d, an, inp):
    """Another input for the same parameters and box."""
    P = gen.points(d, inp.b, d.int(1, 12), "uniform")
    same = not an.query or d.bool()
    Q = None if same else gen.points(d, inp.b, d.int(1, 12), "uniform")
    x = analyses.Input(inp.b, P, Q, prm=inp.prm)
    an.fill(d, x)
    x.nb = analyses.neighbors(d, x, an, kinds=("list", "ball")) if an.neighbors else None
    if an.name.startswith("query"):
        x.nb = ("args", {"r_max": gen.rmax(d, inp.b)})
    return x


def context(d):
    """Nested, repeated and failing contexts against a stack."""
    import freud

    par = freud.parallel
    start = par.get_num_threads()
    ctx = {}
    try:
        cur = start
        stack = []  # (context, previous)
        log = []
        for _ in range(d.int(1, 15)):
            op = d.choice(("enter", "exit", "set", "reenter", "raise"))
            n = d.choice((1, 2, 3, 8, None, 0, -1))
            log.append((op, n))
            if op == "enter":
                c = par.NumThreads(n)
                stack.append((c, cur))
                c.__enter__()
                cur = 0 if n is None or n < 0 else n
            elif op == "reenter" and stack:
                c = stack[d.draw(len(stack) - 1)][0]
                stack.append((c, cur))
                c.__enter__()
                cur = 0 if c.N is None or c.N < 0 else c.N
            elif op == "exit" and stack:
                c, prev = stack.pop()
                c.__exit__(None, None, None)
                cur = prev
            elif op == "set":
                par.set_num_threads(n)
                cur = 0 if n is None or n < 0 else n
            elif op == "raise":
                try:
                    with par.NumThreads(n):
                        raise KeyError
                except KeyError:
                    pass
            require(par.get_num_threads() == cur, "number of threads", got=par.get_num_threads(), want=cur, log=log)
            # the setting works
            if d.bool(4):
                P = np.zeros((3, 3), dtype=np.float32)
                nl = freud.AABBQuery(freud.Box.cube(4), P).query(P, {"r_max": 1}).toNeighborList()
                require(len(nl) == 9, "query after changing the number of threads")
        d.note(log=log)
        d.nontrivial(len(stack) > 0 or any(o == "exit" for o, _ in log))
    finally:
        par.set_num_threads(start)


SUBS = [Sub(threads, 700), Sub(processes, 500), Sub(repeated, 500), Sub(context, 200)]
