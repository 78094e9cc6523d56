"""Writes MANIFEST.json from the list of built checks."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(V, "tools", "levels.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    n = NOTES.get(i)
    if not n:
        na.append({"property": i, "reason": "not built yet"})
        continue
    cmd = "/opt/venv/bin/python checks/run.py %s" % i
    checks.append({"property": i, "quick_cmd": "VERIF_TIER=quick " + cmd, "thorough_cmd": "VERIF_TIER=thorough " + cmd,
                   "technique": n["technique"], "level": "model_checking", "level_note": n["note"]})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications in spec/, checked with TLC; every behaviour TLC enumerates is replayed into the code of /repo. No hooks in /repo."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
