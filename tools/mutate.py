"""Mutation testing of the checks (a development tool; no check uses it).

usage: mutate.py WORKDIR SEED SECONDS [FILES...]

Copies /repo to WORKDIR (outside of /repo and /verif), changes one place of the sources at a time, builds, runs the
repository's tests and, for the mutants that pass them, the checks: first those whose anchors name the file, then the
others. Appends one JSON line per mutant to WORKDIR/log.jsonl.
"""
import json, os, random, re, shutil, subprocess, sys, time

W, SEED, SECS = sys.argv[1], int(sys.argv[2]), float(sys.argv[3])
ONLY = sys.argv[4:]
PY = "/opt/venv/bin/python"
REPO, LIB, B = W + "/repo", W + "/lib", W + "/b"
V = W + "/verif"
LEFT = ["environment_local_descriptors", "environment_match_env", "locality_voronoi", "order_continuous_coordination",
        "order_nematic", "order_solid_liquid", "order_steinhardt"]
SKIPFILES = re.compile(r"export-|module-|Voronoi|Steinhardt|SolidLiquid|Nematic|MatchEnv|Registration|LocalDescriptors|Wigner|diagonalize|"
                       r"ContinuousCoordination|StaticStructureFactorDirect|__init__|errors.py|plot.py|tbb_config")


def sh(cmd, timeout=600, env=None, cwd=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=env, cwd=cwd,
                         start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o.decode(errors="replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return "timeout", ""


def setup():
    os.makedirs(W, exist_ok=True)
    if not os.path.exists(REPO):
        shutil.copytree("/repo", REPO, ignore=shutil.ignore_patterns("build", "*.so", "__pycache__", ".git"), symlinks=True)
        os.makedirs(LIB + "/freud")
        for f in os.listdir(REPO + "/freud"):
            if f.endswith(".py"):
                os.symlink(f"{REPO}/freud/{f}", f"{LIB}/freud/{f}")
    # undo the mutant of an interrupted run
    subprocess.check_call(["rsync", "-rlc", "--exclude=build", "--exclude=*.so", "--exclude=__pycache__", "--exclude=.git", "/repo/", REPO + "/"])
    if os.path.exists(V):
        shutil.rmtree(V)
    subprocess.check_call(["git", "clone", "-q", "/verif", V])
    assert build()[0] == 0


def build():
    r = sh(["/usr/bin/cmake", "-G", "Ninja", "-S", REPO, "-B", B, "-DCMAKE_BUILD_TYPE=Release", "-DCMAKE_CXX_COMPILER=/usr/bin/g++",
            "-DCMAKE_C_COMPILER=/usr/bin/gcc", "-DPython_EXECUTABLE=" + PY, "-DCMAKE_CXX_FLAGS_RELEASE=-O2 -DNDEBUG",
            "-DCMAKE_PROJECT_freud_INCLUDE=/opt/vp/cmake/partial.cmake", f"-DCMAKE_LIBRARY_OUTPUT_DIRECTORY={LIB}/freud"])
    if r[0] != 0:
        return r
    return sh(["/usr/bin/cmake", "--build", B, "-j", "4"])


ENV = dict(os.environ, PYTHONPATH=LIB, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="agg", PYTHONHASHSEED="0")


def tests():
    t = REPO + "/tests"
    cmd = [PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-n", "4", "--dist", "loadfile", "--timeout=60"]
    for d in json.load(open(W + "/deselect.json")) if os.path.exists(W + "/deselect.json") else []:
        cmd += ["--deselect", d]
    cmd += [f"--ignore={t}/integration", f"--ignore={t}/validation"] + [f"--ignore={t}/test_{x}.py" for x in LEFT] + ["."]
    return sh(cmd, 400, ENV, t)


SWAPS = [("i", "j"), ("point_idx", "query_point_idx"), ("n_points", "n_query_points"), ("getNPoints()", "getNQueryPoints()"),
         ("theta", "phi"), ("sin", "cos"), ("min", "max"), ("floor", "ceil"), ("r_min", "r_max"), ("m_r_min", "m_r_max"), ("true", "false"),
         ("True", "False"), ("query_points", "points"), ("is not", "is"), ("getPoints()", "getQueryPoints()"), ("orientations", "query_orientations")]


def candidates(path):
    out = []
    lines = open(path).read().split("\n")
    py = path.endswith(".py")
    doc = False
    block = False
    for n, l in enumerate(lines):
        s = l.strip()
        if py:
            q = s.count('"""')
            if doc or q:
                doc = doc ^ (q % 2 == 1)
                continue
            if not s or s[0] in "#@" or s.startswith(("import", "from", "def ", "class ", "raise", "msg", "return NotImplemented", "else")):
                continue
            code = re.sub(r"#.*", "", l)
        else:
            if "/*" in s:
                block = True
            if block:
                if "*/" in s:
                    block = False
                continue
            if not s or s.startswith(("//", "#", "*", "template", "namespace", "class", "struct", "using", "throw", "public", "private", "protected")):
                continue
            code = re.sub(r"//.*", "", l)
        if '"' in code or "'" in code and not py:
            continue

        def put(a, b, new, what):
            out.append((n, l, l[:a] + new + l[b:], what))
        for m in re.finditer(r"(?<![<>=!\-+*/&|:])(<=|>=|==|!=|<|>)(?![<>=])", code):
            if not py and m.group() in "<>" and not (m.start() and code[m.start() - 1] == " "):
                continue
            for r in {"<": ["<="], "<=": ["<"], ">": [">="], ">=": [">"], "==": ["!="], "!=": ["=="]}[m.group()]:
                put(m.start(), m.end(), r, "rel")
        for m in re.finditer(r" ([+\-*/%]|\+=|-=|\*=|/=|&&|\|\||and|or) ", code):
            r = {"+": "-", "-": "+", "*": "/", "/": "*", "%": "*", "+=": "-=", "-=": "+=", "*=": "/=", "/=": "*=", "&&": "||", "||": "&&",
                 "and": "or", "or": "and"}[m.group(1)]
            put(m.start(1), m.end(1), r, "arith")
        for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", code):
            put(m.start(), m.end(), str(int(m.group()) + 1), "const")
            if int(m.group()) > 0:
                put(m.start(), m.end(), str(int(m.group()) - 1), "const")
        for m in re.finditer(r"(?<![\w.])(\d+\.\d+)(F?)", code):
            put(m.start(), m.end(), str(float(m.group(1)) + 1) + m.group(2), "const")
        for m in re.finditer(r"\.([xyz])\b", code):
            put(m.start(1), m.end(1), {"x": "y", "y": "z", "z": "x"}[m.group(1)], "component")
        for a, b in SWAPS:
            for x, y in ((a, b), (b, a)):
                for m in re.finditer(r"(?<![\w.])" + re.escape(x) + r"(?!\w)", code):
                    put(m.start(), m.end(), y, "swap")
        m = re.match(r"(\s*)(?:else )?if (constexpr )?\((.*)\)\s*$", code)
        if m and not py:
            put(m.start(3), m.end(3), "!(" + m.group(3) + ")", "negate")
            put(m.start(3), m.end(3), "false", "never")
        if py and re.match(r"\s*if .*:\s*$", code):
            k = code.index("if ") + 3
            e = code.rindex(":")
            put(k, e, "not (" + code[k:e] + ")", "negate")
        if not py and re.match(r"\s+[\w.\->\[\]():]+(\(.*\)| [+\-*/]?= .*);\s*$", code) and not re.match(r"\s+(return|const|auto|delete|break)", code):
            put(len(l) - len(l.lstrip()), len(l), ";", "delete")
        if py and re.match(r"\s+self\.[\w.]+(\(.*\)| = .*)$", code):
            put(len(l) - len(l.lstrip()), len(l), "pass", "delete")
        if not py and re.match(r"\s*(continue|break);", code):
            put(len(l) - len(l.lstrip()), len(l), ";", "delete")
    return out


def checks(f):
    props = [json.loads(x) for x in open("/verif/properties.jsonl")]
    ids = [p["id"] for p in props if p["id"] not in ("C33", "C34", "C35", "C36", "C37", "C38", "C39")]
    first = [p["id"] for p in props if p["id"] in ids and f in p["anchors"]["files"]]
    return first, [i for i in ids if i not in first]


def run_check(p):
    env = dict(ENV, PBT_HANG="20", PBT_FACTOR="1", PBT_FREUD=W, PBT_NOSHRINK="1")
    rc, o = sh([PY, "-m", "pbt.main", p, "quick", "--no-build", "--cap", "60"], 400, env, V)
    return rc, o


def main():
    setup()
    rng = random.Random(SEED)
    files = sorted(subprocess.check_output(["git", "ls-files", "freud"], cwd="/repo", text=True).split())
    files = [f for f in files if re.search(r"\.(cc|h|py)$", f) and not SKIPFILES.search(f)]
    if ONLY:
        files = [f for f in files if any(o in f for o in ONLY)]
    cand = [(f, c) for f in files for c in candidates(f"{REPO}/{f}")]
    w = {}
    for f, c in cand:
        w[f] = w.get(f, 0) + 1
    print(len(cand), "candidates")
    t0 = time.time()
    seen = set()
    while time.time() - t0 < SECS:
        # files weighted by the square root of their number of candidates
        f = rng.choices(files, [w.get(f, 0) ** 0.5 for f in files])[0]
        c = rng.choice([c for g, c in cand if g == f])
        n, old, new, what = c
        if (f, n, new) in seen:
            continue
        seen.add((f, n, new))
        path = f"{REPO}/{f}"
        src = open(path).read()
        lines = src.split("\n")
        lines[n] = new
        rec = {"file": f, "line": n + 1, "what": what, "old": old.strip(), "new": new.strip()}
        try:
            open(path, "w").write("\n".join(lines))
            rc, o = build() if not f.endswith(".py") else (0, "")
            if rc != 0:
                rec["result"] = "no build"
                continue
            rc, o = tests()
            if rc != 0:
                rec["result"] = "tests"
                continue
            first, rest = checks(f)
            rec["result"] = "MISSED"
            for p in first + [x for x in rest if x in ("C15", "C29", "C30", "C31", "C32", "C40")]:
                rc, o = run_check(p)
                if rc == 1 and "VIOLATION" in o:
                    rec["result"] = "caught"
                    rec["by"] = p
                    rec["msg"] = [x for x in o.split("\n") if x.startswith("---")][:1]
                    break
                if rc != 0:
                    rec.setdefault("odd", []).append((p, str(rc), o[-300:]))
        finally:
            open(path, "w").write(src)
            rec["t"] = round(time.time() - t0)
            with open(W + "/log.jsonl", "a") as g:
                g.write(json.dumps(rec) + "\n")


if __name__ == "__main__":
    main()
