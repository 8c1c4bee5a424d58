#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks in checks.py and the properties."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
TECH = "TLA+ specification (%s) explored with TLC; every generated behaviour replayed into the real code and compared with what the specification says"
NOTE = "Holds for every behaviour of the specification within the bounds, and for random ones beyond them. Assumes: %s. Trusts TLC and the replaying harness."
checks, na = [], []
for p in props:
    c = CHECKS.get(p["id"])
    if c is None:
        na.append({"property": p["id"], "reason": "not claimed yet"})
        continue
    mods = sorted({j["module"] for j in c["jobs"]("quick") if j["module"]} | set(c.get("modules", [])))
    checks.append({"property": p["id"], "quick_cmd": "python3 run.py %s --tier quick" % p["id"],
                   "thorough_cmd": "python3 run.py %s --tier thorough" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"], "technique": TECH % ", ".join(mods) + c.get("technique", ""),
                   "level": c.get("level", "model_checking"), "level_note": NOTE % "; ".join(c["assume"])})
m = {"version": 1, "setup_cmd": "python3 run.py setup",
     "hooks": {"guard": "none", "enable": "no hooks: the checks build /repo as it is", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Seeds: VERIF_SEED, or --seed. run.py ID --replay FILE runs recorded failing cases again."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "claimed,", len(na), "not claimed")
