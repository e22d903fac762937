"""Runs one shard of the cases of a property (see main.py)."""

import argparse
import importlib
import json
import os
import signal
import sys
import time

from . import engine


def load(prop):
    import freud

    if not os.path.realpath(freud.__file__).startswith(os.environ.get("PBT_FREUD", "/repo/")):
        raise engine.HarnessError(f"freud imported from {freud.__file__}")
    return importlib.import_module(f"pbt.checks.{prop.lower()}")


def get_sub(mod, name):
    for s in mod.SUBS:
        if s.name == name:
            return s
    raise engine.HarnessError(f"no subcheck {name}")


def set_threads(n):
    import freud

    freud.parallel.set_num_threads(n)


def limits():
    import resource

    # a runaway allocation fails with MemoryError/bad_alloc instead of taking the sandbox down
    lim = 6 << 30
    if not os.environ.get("PBT_SANITIZED"):  # needs the address space for its shadow memory
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


# how many times the number of quick cases in SUBS to run (for about 20 to 60 s)
QUICK = {"C04": 4, "C05": 3, "C08": 2, "C29": 1.5, "C33": 2, "C37": 4, "C34": 1.5, "C15": 4, "C20": 4, "C23": 12, "C24": 12, "C25": 12,
         "C26": 12, "C27": 12, "C28": 12, "C39": 10, "C41": 24}


def run_shard(a):
    mod = load(a.prop)
    set_threads(a.threads)
    t0 = time.time()
    prog = os.open(os.path.join(a.out, f"progress-{a.shard}"), os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o600)
    res = {"shard": a.shard, "threads": a.threads, "subs": {}, "violations": []}
    for isub, sub in enumerate(mod.SUBS):
        if a.only and sub.name != a.only:
            continue
        f = float(os.environ.get("PBT_FACTOR") or QUICK.get(a.prop, 6))
        n = sub.thorough if a.tier == "thorough" else int(sub.quick * f)
        st = {"cases": 0, "discarded": 0, "nontrivial": [], "labels": {}, "samples": [], "planned": 0,
              "truncated": False, "seconds": 0.0}
        res["subs"][sub.name] = st
        ts = time.time()
        nontriv = set()
        # share the time cap evenly between the remaining sub-checks
        remaining = len(mod.SUBS) - isub
        sub_deadline = ts + max(1.0, (a.cap - (ts - t0)) / remaining)
        for index in range(a.start if isub == a.start_sub else a.shard, n, a.nshards):
            if isub < a.start_sub:
                break
            st["planned"] += 1
            if time.time() > sub_deadline:
                st["truncated"] = True
                break
            os.pwrite(prog, b"%-8d %-10d %-20.3f\n" % (isub, index, time.time()), 0)
            d = engine.fresh_data(a.seed, a.prop, sub.name, index)
            r = engine.run_case(sub, d)
            st["cases"] += 1
            if r is not None and r[0] == "discard":
                st["discarded"] += 1
                continue
            if d.nontriv:
                nontriv.add(engine.digest(sub.name, d.choices))
            for x in d.labels:
                st["labels"][x] = st["labels"].get(x, 0) + 1
            if r is None:
                if d.nontriv and len(st["samples"]) < 2 and d.notes:
                    st["samples"].append({"sub": sub.name, "index": index, "case": engine.jsonable(d.notes)})
                continue
            # violation
            os.pwrite(prog, b"%-8d %-10d %-20.3f\n" % (-2, index, time.time()), 0)
            choices, tries = engine.shrink(sub, d.choices, budget=a.shrink)
            d2 = engine.Data(choices=choices)
            r2 = engine.run_case(sub, d2)
            flaky = r2 is None or r2[0] != "violation"
            if flaky:
                choices, d2, r2 = d.choices, d, r
            res["violations"].append({
                "property": a.prop, "subcheck": sub.name, "kind": "violation", "seed": a.seed, "index": index,
                "threads": a.threads, "message": r2[1], "notes": engine.jsonable(d2.notes), "choices": choices,
                "shrink_tries": tries, "original_length": len(d.choices), "reproduces": not flaky,
                "original_message": r[1][:600]})
            break
        st["nontrivial"] = sorted(nontriv)
        st["seconds"] = time.time() - ts
    os.pwrite(prog, b"%-8d %-10d %-20.3f\n" % (-1, 0, time.time()), 0)
    tmp = os.path.join(a.out, f"result-{a.shard}.tmp")
    with open(tmp, "w") as f:
        json.dump(res, f)
    os.rename(tmp, os.path.join(a.out, f"result-{a.shard}.json"))


def run_solo(a):
    """Runs one case, writing its choices to a file as they are drawn (for crashes and hangs)."""
    mod = load(a.prop)
    set_threads(a.threads)
    sub = mod.SUBS[a.start_sub]
    tee = os.open(os.path.join(a.out, "tee"), os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
    d = engine.fresh_data(a.seed, a.prop, sub.name, a.start, tee=tee)
    r = engine.run_case(sub, d)
    with open(os.path.join(a.out, "solo.json"), "w") as f:
        json.dump({"result": r, "choices": d.choices, "notes": engine.jsonable(d.notes)}, f)


def run_crash_shrink(a):
    """Minimises a crashing case; every attempt runs in a forked process."""
    mod = load(a.prop)
    sub = mod.SUBS[a.start_sub]
    with open(os.path.join(a.out, "crash-choices.json")) as f:
        choices = json.load(f)
    ok_signals = {getattr(signal, s) for s in ("SIGSEGV", "SIGABRT", "SIGFPE", "SIGBUS", "SIGILL")}

    def test(c):
        pid = os.fork()
        if pid == 0:
            try:
                dn = os.open("/dev/null", os.O_WRONLY)
                os.dup2(dn, 1)
                os.dup2(dn, 2)
                signal.alarm(10)
                set_threads(a.threads)
                engine.run_case(sub, engine.Data(choices=c))
            finally:
                os._exit(0)
        _, status = os.waitpid(pid, 0)
        if os.WIFSIGNALED(status) and os.WTERMSIG(status) in ok_signals:
            return c
        return None

    best, tries = engine.shrink(sub, choices, test=test, budget=a.shrink)
    with open(os.path.join(a.out, "crash-shrunk.json"), "w") as f:
        json.dump({"choices": best, "tries": tries}, f)


def run_replay(a):
    mod = load(a.prop)
    with open(a.replay) as f:
        rep = json.load(f)
    set_threads(rep.get("threads", 1))
    sub = get_sub(mod, rep["subcheck"])
    if rep.get("choices") is None:
        d = engine.fresh_data(rep["seed"], a.prop, sub.name, rep["index"])
    else:
        d = engine.Data(choices=rep["choices"])
    r = engine.run_case(sub, d)
    print(json.dumps({"result": r, "notes": engine.jsonable(d.notes)}, indent=1))
    sys.exit(1 if r is not None and r[0] == "violation" else 0)


def run_probes(a):
    """Deterministic probes of the known findings; writes which of them still reproduce."""
    mod = load(a.prop)
    out = []
    for key, fn in getattr(mod, "KNOWN", []):
        out.append({"key": key, "reproduces": bool(fn()), "what": (fn.__doc__ or "").strip()})
    with open(os.path.join(a.out, "probes.json"), "w") as f:
        json.dump(out, f)


def main():
    p = argparse.ArgumentParser()
    p.add_argument("mode", choices=["shard", "solo", "crashshrink", "replay", "probes"])
    p.add_argument("--prop", required=True)
    p.add_argument("--tier", default="quick")
    p.add_argument("--seed", type=int, default=1)
    p.add_argument("--shard", type=int, default=0)
    p.add_argument("--nshards", type=int, default=8)
    p.add_argument("--threads", type=int, default=1)
    p.add_argument("--out", default="/tmp")
    p.add_argument("--cap", type=float, default=240)
    p.add_argument("--shrink", type=float, default=12)
    p.add_argument("--start-sub", type=int, default=-1)
    p.add_argument("--start", type=int, default=0)
    p.add_argument("--only", default=None)
    p.add_argument("--replay", default=None)
    a = p.parse_args()
    limits()
    {"shard": run_shard, "solo": run_solo, "crashshrink": run_crash_shrink, "replay": run_replay,
     "probes": run_probes}[a.mode](a)


if __name__ == "__main__":
    main()
