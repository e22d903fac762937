"""Run the check of every planted bug of /verif/seeded against it, in a copy (a development tool; no check uses it).

usage: replant.py WORKDIR OUT.json [ID...]   (WORKDIR as of mutate.py)

Writes {id: [property, exit code, sub-checks that reported it]} to OUT.json.
"""
import json, os, re, subprocess, sys
W, OUT, ids = sys.argv[1], sys.argv[2], sys.argv[3:]
sys.argv = ["mutate.py", W, "0", "0"]
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mutate as m

S = "/verif/seeded"
m.setup()
res = json.load(open(OUT)) if os.path.exists(OUT) else {}
for i in ids or sorted(os.listdir(S)):
    if i in res and not ids:
        continue
    p = json.load(open(f"{S}/{i}/meta.json"))["property"]
    a = subprocess.run(["git", "apply", "--unsafe-paths", "--directory=" + m.REPO, f"{S}/{i}/patch.diff"], cwd="/", capture_output=True, text=True)
    assert a.returncode == 0, (i, a.stderr)
    rc, o = m.build()
    assert rc == 0, (i, o[-800:])
    env = dict(m.ENV, PBT_HANG="20", PBT_FREUD=W, VERIF_SEED="1", PBT_NOSHRINK="1")
    rc, o = m.sh([m.PY, "-m", "pbt.main", p, "quick", "--no-build"], 900, env, m.V)
    res[i] = [p, rc, sorted(set(re.findall(p + r"-([\w]+)\.json", o)))]
    print(i, res[i], flush=True)
    json.dump(res, open(OUT, "w"), indent=1)
    subprocess.check_call(["rsync", "-rlc", "--exclude=build", "--exclude=*.so", "--exclude=__pycache__", "--exclude=.git", "/repo/", m.REPO + "/"])
