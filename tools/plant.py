"""Try planted bugs in a copy (a development tool; no check uses it).

usage: plant.py WORKDIR ID...   (WORKDIR as of mutate.py)

For each /tmp/plant/seeded/ID: demo on the clean copy, apply, build, stable tests, demo, the property's check.
"""
import json, os, subprocess, sys
W, ids = sys.argv[1], sys.argv[2:]
sys.argv = ["mutate.py", W, "0", "0"]
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mutate as m


def demo(i):
    rc, o = m.sh([m.PY, f"/tmp/plant/seeded/{i}/demo.py"], 280, m.ENV, "/tmp")
    return rc


def check(p):
    env = dict(m.ENV, PBT_HANG="20", PBT_FREUD=W, VERIF_SEED="1")
    rc, o = m.sh([m.PY, "-m", "pbt.main", p, "quick", "--no-build"], 900, env, m.V)
    return rc, "".join(x for x in o.splitlines(True) if "VIOLATION" in x)[:300] or o[-300:]


m.setup()
clean = {i: demo(i) for i in ids}
for i in ids:
    p = json.load(open(f"/tmp/plant/seeded/{i}/meta.json"))["property"]
    r = {"id": i, "property": p, "demo clean": clean[i]}
    a = subprocess.run(["git", "apply", "--unsafe-paths", "--directory=" + m.REPO, f"/tmp/plant/seeded/{i}/patch.diff"], cwd="/", capture_output=True, text=True)
    if a.returncode:
        r["apply"] = a.stderr
    else:
        rc, o = m.build()
        if rc:
            r["build"] = o[-1500:]
        else:
            r["demo patched"] = demo(i)
            rc, o = m.tests()
            r["tests"] = rc if rc == 0 else o[-600:]
            r["check"] = check(p)
    print(json.dumps(r, indent=1), flush=True)
    m.setup()
