#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    c = CHECKS.get(p["id"])
    if not c:
        na.append({"property": p["id"], "reason": "check not built yet"})
        continue
    checks.append({"property": p["id"], "quick_cmd": "python3 bin/check.py %s quick" % p["id"], "thorough_cmd": "python3 bin/check.py %s thorough" % p["id"],
                   "technique": c.get("technique", "explicit-state model checking of the real container against a reference model"),
                   "level": c.get("level", "model_checking"),
                   "level_note": c.get("note", "Exhaustive within the stated bounds on the implementation itself; trusts the compiler, the reference dictionary and the state hash (64 bit).")})
m = {"version": 1, "setup_cmd": "bash bin/setup.sh", "checks": checks, "not_applicable": na}
hooks = os.path.join(V, "tools", "hooks.json")
if os.path.exists(hooks):
    m["hooks"] = json.load(open(hooks))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
