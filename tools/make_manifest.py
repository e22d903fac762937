"""Writes /verif/MANIFEST.json from the check modules present (run by hand)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
have = {f[:-3].upper() for f in os.listdir(os.path.join(ROOT, "pbt/checks")) if f.startswith("c") and f[1:3].isdigit()}
T = json.load(open(os.path.join(ROOT, "tools/techniques.json")))
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA or i not in have:
        na.append({"property": i, "reason": NA.get(i, "The check is not built yet.")})
        continue
    checks.append({"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
                   "evidence_file": f"evidence/{i}.json", "technique": T[i], "level": "exploration",
                   "level_note": "Random structured search with shrinking; no violation among the generated cases "
                                 "(counts in the evidence file). Trusts numpy/scipy, the float64 reference code in "
                                 "pbt/ and that values within float32 rounding of a cutoff or bin edge are undecidable."})
m = {"version": 1, "setup_cmd": "bash /opt/vp/build.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. Every check rebuilds /repo's working tree (with /opt/vp/build.sh; C33 and C35 to C39 into "
              "/verif/.full with stand-ins for the missing libraries, C34 into /verif/.asan with sanitizers) and runs "
              "generated cases in 8 worker processes with different thread counts; see DESIGN.md."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", [x["property"] for x in na])
