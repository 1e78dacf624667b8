"""Regenerates /verif/MANIFEST.json from the property list and the checks that exist (run by hand)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {}
exec(open(os.path.join(V, "tools", "notes.py")).read())
props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "props", i.lower() + ".py")):
        t, n = NOTE[i]
        checks.append({"property": i, "quick_cmd": "./check " + i, "thorough_cmd": "VERIF_TIER=thorough ./check " + i,
                       "technique": t, "level": "model_checking", "level_note": n})
    else:
        na.append({"property": i, "reason": NA.get(i, "specification and conformance driver not built yet")})
m = {"version": 1, "setup_cmd": "sh tools/setup.sh",
     "checks": checks, "not_applicable": na,
     "notes": "TLA+ / TLC. No hooks: the checks drive the public API of the working tree directly. "
              "EMC2_REPO=<dir> makes a check use another copy of the repository (for experiments only)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
