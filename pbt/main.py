"""Runs the check of one property: builds /repo, runs the cases in worker processes, reports.

exit 0: the property held on everything explored; exit 1 with VIOLATION lines otherwise; exit 2: no answer.
"""

import argparse
import fcntl
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
THREADS = [1, 1, 2, 4, 1, 3, 8, 2]
NSHARDS = 8
HANG = float(os.environ.get("PBT_HANG", "120"))
CRASH_SIGNALS = {signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGBUS, signal.SIGILL}
PY = sys.executable
# another source tree, for trying planted bugs in copies
REPO = os.environ.get("PBT_REPO", "/repo")


SAN = os.path.join(ROOT, ".asan")
# checks whose cases run on a build with address and undefined behaviour sanitizers
SANITIZED = {"C34"}
FULL = os.path.join(ROOT, ".full")
# checks of classes that /opt/vp/build.sh leaves out: these run on a build with stand-ins for the missing libraries
FULLBUILD = {"C33", "C35", "C36", "C37", "C38", "C39", "C41", "C42"}


def san_env():
    """The environment of a process that uses the sanitized build."""
    lib = subprocess.check_output(["/usr/bin/gcc", "-print-file-name=libasan.so"], text=True).strip()
    return dict(os.environ, PYTHONPATH=os.path.join(SAN, "lib"), LD_PRELOAD=os.path.join(SAN, "new.so") + " " + os.path.realpath(lib),
                PBT_SANITIZED="1", PYTHONMALLOC="malloc",
                ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:max_allocation_size_mb=1500:"
                             "verify_asan_link_order=0:handle_abort=1:quarantine_size_mb=64:hard_rss_limit_mb=3500",
                UBSAN_OPTIONS="halt_on_error=1:abort_on_error=1:print_stacktrace=1")


def link_python(lib):
    os.makedirs(lib, exist_ok=True)
    for f in os.listdir(lib):
        if f.endswith(".py"):
            os.remove(os.path.join(lib, f))
    for f in os.listdir(REPO + "/freud"):
        if f.endswith(".py"):
            os.symlink(os.path.join(REPO, "freud", f), os.path.join(lib, f))


def build_into(root, what, include, build_type, flags, release_flags=None, before=()):
    """Builds /repo into root/lib/freud (extensions) with links to the Python files."""
    lib = os.path.join(root, "lib", "freud")
    log = b""
    os.makedirs(root, exist_ok=True)
    lock = open(os.path.join(root, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        link_python(lib)
        cfg = ["/usr/bin/cmake", "-G", "Ninja", "-S", REPO, "-B", os.path.join(root, "b"),
               f"-DCMAKE_BUILD_TYPE={build_type}", "-DCMAKE_C_COMPILER=/usr/bin/gcc",
               "-DCMAKE_CXX_COMPILER=/usr/bin/g++", f"-DCMAKE_CXX_FLAGS={flags}",
               "-DPython_EXECUTABLE=/opt/venv/bin/python", f"-DCMAKE_PROJECT_freud_INCLUDE={include}",
               f"-DCMAKE_LIBRARY_OUTPUT_DIRECTORY={lib}"]
        if release_flags:
            cfg.append(f"-DCMAKE_CXX_FLAGS_RELEASE={release_flags}")
        # cmake points this ignored link to the last configured build folder
        link = REPO + "/compile_commands.json"
        old = os.readlink(link) if os.path.islink(link) else None
        for cmd in [*before, cfg, ["/usr/bin/cmake", "--build", os.path.join(root, "b"), "-j", str(os.cpu_count())]]:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
            log += r.stdout
            if r.returncode:
                sys.stdout.write(log.decode(errors="replace")[-4000:])
                print(what, "BUILD FAILED")
                sys.exit(2)
        if old is not None and os.path.islink(link) and os.readlink(link) != old:
            os.remove(link)
            os.symlink(old, link)
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)


def build_sanitized():
    flags = ("-O1 -g1 -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS -fsanitize=address,bounds,"
             "integer-divide-by-zero,null,return,unreachable,vla-bound,object-size,builtin")
    build_into(SAN, "SANITIZED", os.path.join(ROOT, "pbt/thirdparty/full.cmake"), "None", flags, before=[
        ["/usr/bin/g++", "-O1", "-shared", "-fPIC", "-o", os.path.join(SAN, "new.so"),
         os.path.join(ROOT, "pbt", "native", "new.cc")]])


def build_full():
    """All classes, those that /opt/vp/build.sh leaves out too (see pbt/thirdparty)."""
    build_into(FULL, "FULL", os.path.join(ROOT, "pbt/thirdparty/full.cmake"), "Release", "", "-O2 -DNDEBUG")


def build():
    lock = open("/tmp/.pbt-build.lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        r = subprocess.run(["bash", "/opt/vp/build.sh"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           stdin=subprocess.DEVNULL)
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
    if r.returncode != 0:
        sys.stdout.write(r.stdout.decode(errors="replace")[-4000:])
        print("BUILD FAILED")
        sys.exit(2)


def known_findings(prop):
    keys = {}
    path = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                keys[m.group(2)] = m.group(3).strip()
    return keys


class Worker:
    env = None

    def __init__(self, args, tag):
        self.tag = tag
        self.args = args
        self.log = tempfile.TemporaryFile()
        self.proc = subprocess.Popen([PY, "-m", "pbt.worker"] + args, cwd=ROOT, stdout=self.log,
                                     stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=self.env)

    def tail(self, n=3000):
        size = self.log.seek(0, 2)
        self.log.seek(max(0, size - n))
        s = self.log.read().decode(errors="replace")
        if self.env is not None and "PBT_SANITIZED" in self.env:
            # the sanitizer's report: its first lines and the frames of freud
            self.log.seek(max(0, size - 200000))
            x = self.log.read().decode(errors="replace").split("\n")
            k = [i for i, l in enumerate(x) if "runtime error:" in l or "ERROR: AddressSanitizer" in l
                 or "Assertion '" in l or "hard rss limit" in l]
            if k:
                y = x[k[-1]:]
                s = "\n".join([l for i, l in enumerate(y) if i < 6 or "/freud" in l or "located" in l][:25])
        return s


def run_simple(args, timeout):
    w = Worker(args, "x")
    try:
        rc = w.proc.wait(timeout=timeout)
    except subprocess.TimeoutExpired:
        w.proc.kill()
        w.proc.wait()
        return "timeout", w
    return rc, w


def died_by_crash(rc):
    return isinstance(rc, int) and rc < 0 and -rc in {int(s) for s in CRASH_SIGNALS}


def read_progress(path):
    try:
        s = open(path).read().split()
        return int(s[0]), int(s[1]), float(s[2])
    except (OSError, IndexError, ValueError):
        return None


def handle_crash(prop, tier, seed, shard, threads, isub, index, why, out, log):
    """A worker died or hung in a case: reproduce it alone, minimise, and describe it."""
    import importlib

    solo = os.path.join(out, f"solo-{shard}")
    os.makedirs(solo, exist_ok=True)
    base = ["--prop", prop, "--seed", str(seed), "--threads", str(threads), "--out", solo,
            "--start-sub", str(isub), "--start", str(index)]
    rc, w = run_simple(["solo"] + base, HANG)
    sys.path.insert(0, ROOT)
    v = {"property": prop, "subcheck": None, "isub": isub, "kind": why, "seed": seed, "index": index,
         "threads": threads, "choices": None, "message": f"process {why} while running the case", "log": log[:1500],
         "reproduces": False, "shard": shard}
    names = {}
    try:
        mod = importlib.import_module(f"pbt.checks.{prop.lower()}")
        names = {i: s.name for i, s in enumerate(mod.SUBS)}
    except Exception as e:  # noqa: BLE001
        v["log"] += f"\n(cannot import the check module here: {e})"
    v["subcheck"] = names.get(isub, str(isub))
    crashed = died_by_crash(rc)
    if not crashed and rc != "timeout":
        if why == "hang":
            return None  # slow once, finished alone
        # the crash needs the history of the shard; it is reported with that history as the reproduction
        v["message"] += " (needs the preceding cases of the shard)"
        return v
    v["reproduces"] = True
    try:
        choices = [int(x) for x in open(os.path.join(solo, "tee")).read().split()]
    except (OSError, ValueError):
        choices = None
    v["choices"] = choices
    v["message"] = f"process {'crashed with signal %d' % -rc if crashed else 'hung'} while running the case"
    v["log"] = w.tail()
    if crashed and choices is not None and not os.environ.get("PBT_NOSHRINK"):
        with open(os.path.join(solo, "crash-choices.json"), "w") as f:
            json.dump(choices, f)
        run_simple(["crashshrink"] + base + ["--shrink", "25"], 90)
        try:
            with open(os.path.join(solo, "crash-shrunk.json")) as f:
                s = json.load(f)
            v["choices"], v["shrink_tries"] = s["choices"], s["tries"]
        except (OSError, ValueError):
            pass
    return v


def replay(prop, path):
    rep = json.load(open(path))
    if rep.get("kind") in ("crash", "hang") and not rep.get("reproduces", True):
        with tempfile.TemporaryDirectory() as out:
            rc, w = run_simple(["shard", "--prop", prop, "--seed", str(rep["seed"]), "--shard", str(rep["shard"]),
                                "--threads", str(rep["threads"]), "--out", out], 900)
    else:
        rc, w = run_simple(["replay", "--prop", prop, "--replay", os.path.abspath(path)], 900)
    print(w.tail(6000))
    print("replay:", rc)
    return 0 if rc == 0 else 1


def main():
    p = argparse.ArgumentParser()
    p.add_argument("prop")
    p.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    p.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    p.add_argument("--replay")
    p.add_argument("--no-build", action="store_true")
    p.add_argument("--only", default=None)
    p.add_argument("--cap", type=float, default=None)
    a = p.parse_args()
    t0 = time.time()
    if a.prop in SANITIZED:
        if not a.no_build:
            build_sanitized()
        Worker.env = san_env()
    elif a.prop in FULLBUILD:
        if not a.no_build:
            build_full()
        Worker.env = dict(os.environ, PYTHONPATH=os.path.join(FULL, "lib"))
    elif not a.no_build:
        build()
    if a.replay:
        sys.exit(replay(a.prop, a.replay))
    tb = time.time()
    cap = a.cap or (300.0 if a.tier == "quick" else 3000.0)
    out = tempfile.mkdtemp(prefix="pbt-")
    try:
        code = run(a, out, cap, t0, tb)
    finally:
        shutil.rmtree(out, ignore_errors=True)
    sys.exit(code)


def run(a, out, cap, t0, tb):
    prop = a.prop
    pending = {}
    for i in range(NSHARDS):
        args = ["shard", "--prop", prop, "--tier", a.tier, "--seed", str(a.seed), "--shard", str(i), "--nshards",
                str(NSHARDS), "--threads", str(THREADS[i]), "--out", out, "--cap", str(cap)]
        if a.only:
            args += ["--only", a.only]
        pending[i] = Worker(args, i)
    probes_rc, probes_w = run_simple(["probes", "--prop", prop, "--out", out], 200)
    violations = []
    problems = []
    notes = []
    crashes = []
    while pending:
        time.sleep(0.05)
        for i, w in list(pending.items()):
            rc = w.proc.poll()
            prog = read_progress(os.path.join(out, f"progress-{i}"))
            if rc is None:
                if prog is not None and prog[0] >= 0 and time.time() - prog[2] > HANG:
                    w.proc.kill()
                    w.proc.wait()
                    del pending[i]
                    crashes.append((i, prog, "hang", w.tail()))
                elif time.time() - tb > cap + 400:
                    w.proc.kill()
                    w.proc.wait()
                    del pending[i]
                    problems.append(f"worker {i} exceeded its time")
                continue
            del pending[i]
            if rc == 0:
                continue
            if died_by_crash(rc) and prog is not None and (prog[0] >= 0 or prog[0] == -2):
                crashes.append((i, prog, "crash", w.tail()))
            elif died_by_crash(rc):
                problems.append(f"worker {i} died with {rc} outside of a case:\n{w.tail()}")
            else:
                problems.append(f"worker {i} exited with {rc}:\n{w.tail()}")
    for k, (i, prog, why, log) in enumerate(crashes):
        if prog[0] == -2:
            # crashed while shrinking: a violation (in memory corrupting code) whose minimisation failed
            violations.append({"property": prop, "subcheck": "?", "kind": "crash", "seed": a.seed, "shard": i,
                               "index": prog[1], "threads": THREADS[i], "choices": None, "reproduces": False,
                               "message": "process crashed while minimising a violation", "log": log[:1500]})
            continue
        if k >= 2 and violations:
            break  # the first ones are reproduced and minimised; further ones add nothing
        v = handle_crash(prop, a.tier, a.seed, i, THREADS[i], prog[0], prog[1], why, out, log)
        if v is None:
            notes.append(f"case {prog[:2]} of shard {i} was slow once")
        else:
            violations.append(v)
    results = []
    for i in range(NSHARDS):
        path = os.path.join(out, f"result-{i}.json")
        if os.path.exists(path):
            results.append(json.load(open(path)))
    for r in results:
        violations.extend(r["violations"])
    # one report per sub-check, the shortest reproduction
    best = {}
    for v in violations:
        key = (v["subcheck"])
        size = len(v["choices"]) if v.get("choices") is not None else 10**9
        rank = (not v.get("reproduces", True), size, str(v.get("choices"))[:200])
        if key not in best or rank < best[key][0]:
            best[key] = (rank, v)
    edir = os.path.join(ROOT, "evidence")
    rdir = os.path.join(edir, "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + "-"):
            os.remove(os.path.join(rdir, f))
    lines = []
    vlist = []
    for key in sorted(best):
        v = best[key][1]
        path = os.path.join(rdir, f"{prop}-{re.sub('[^A-Za-z0-9_]', '_', str(key))}.json")
        with open(path, "w") as f:
            json.dump(v, f, indent=1)
        lines.append(f"VIOLATION property={prop} replay={path}")
        vlist.append({"subcheck": v["subcheck"], "kind": v["kind"], "message": v["message"][:500], "replay": path})
        print(f"--- {prop} {v['subcheck']}: {v['message'][:1500]}")
        if v.get("log"):
            print(v["log"][:1500])
        print(f"    input: {json.dumps(v.get('notes'))[:1500]}")
    # known findings
    known = known_findings(prop)
    if probes_rc != 0 or not os.path.exists(os.path.join(out, "probes.json")):
        if died_by_crash(probes_rc):
            lines.append(f"VIOLATION property={prop} replay={os.path.join(ROOT, 'pbt/checks/' + prop.lower() + '.py')}")
            print("probe of a known finding crashed:", probes_w.tail(1500))
        else:
            problems.append(f"probes: {probes_rc}\n{probes_w.tail()}")
    else:
        for pr in json.load(open(os.path.join(out, "probes.json"))):
            if pr["reproduces"] and pr["key"] in known:
                print(f"KNOWN-FINDING: property={prop} {known[pr['key']]}")
            elif pr["reproduces"]:
                path = os.path.join(rdir, f"{prop}-probe-{pr['key']}.json")
                with open(path, "w") as f:
                    json.dump(pr, f, indent=1)
                lines.append(f"VIOLATION property={prop} replay={path}")
                vlist.append({"subcheck": "probe " + pr["key"], "kind": "violation", "message": pr["what"],
                              "replay": path})
            elif pr["key"] in known:
                notes.append(f"known finding {pr['key']} no longer reproduces")
    # evidence
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": [], "discarded": 0, "subchecks": {}}
    rules = []
    allnon = set()
    for r in results:
        for name, st in r["subs"].items():
            s = cov["subchecks"].setdefault(name, {"cases": 0, "discarded": 0, "nontrivial": set(), "labels": {},
                                                   "truncated": False, "seconds": 0.0})
            s["cases"] += st["cases"]
            s["discarded"] += st["discarded"]
            s["nontrivial"].update(st["nontrivial"])
            s["truncated"] = s["truncated"] or st["truncated"]
            s["seconds"] = max(s["seconds"], round(st["seconds"], 2))
            for k, n in st["labels"].items():
                s["labels"][k] = s["labels"].get(k, 0) + n
            if len([x for x in cov["samples"] if x["sub"] == name]) < 2:
                cov["samples"].extend(st["samples"][:1])
    try:
        sys.path.insert(0, ROOT)
        import importlib

        mod = importlib.import_module(f"pbt.checks.{prop.lower()}")
        rules = [getattr(mod, "RULE", "")] + [f"{s.name}: {s.rule}" for s in mod.SUBS if s.rule]
    except Exception as e:  # noqa: BLE001
        rules = [f"(check module not importable: {e})"]
    for name, s in cov["subchecks"].items():
        cov["evaluations"] += s["cases"]
        cov["discarded"] += s["discarded"]
        allnon |= s["nontrivial"]
        s["nontrivial"] = len(s["nontrivial"])
        s["labels"] = dict(sorted(s["labels"].items()))
    cov["distinct_nontrivial"] = len(allnon)
    cov["rule"] = " ".join(x for x in rules if x)
    cov["notes"] = notes
    wall = time.time() - t0
    ev = {"property": prop, "tier": a.tier, "seed": a.seed, "level": "exploration", "coverage": cov,
          "wall_s": round(wall, 2),
          "assumptions": ["numpy, scipy and rowan compute the reference values correctly",
                          "the sandbox's gcc build of freud is representative"],
          "violations": vlist}
    with open(os.path.join(edir, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for line in lines:
        print(line)
    trunc = [n for n, s in cov["subchecks"].items() if s["truncated"]]
    print(f"{prop} {a.tier} seed={a.seed}: {cov['evaluations']} cases, {cov['distinct_nontrivial']} distinct "
          f"non-trivial, {cov['discarded']} discarded, {len(lines)} violations, {wall:.1f} s"
          + (f", time cap reached in {trunc}" if trunc else ""))
    for x in notes:
        print("note:", x)
    if lines:
        return 1
    if problems:
        for x in problems:
            print("PROBLEM:", x)
        return 2
    return 0


if __name__ == "__main__":
    main()
