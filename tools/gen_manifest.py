#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from plan.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from plan import PLAN, NOT_APPLICABLE
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for p in props:
    if p in PLAN:
        checks.append({
            "property": p,
            "quick_cmd": "python3 run.py %s" % p,
            "thorough_cmd": "python3 run.py %s --tier thorough" % p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": PLAN[p].get("technique", "model checking: exhaustive depth-first enumeration of a bounded space of executions of the real code, each compared with a reference model"),
            "level": "model_checking",
            "level_note": PLAN[p].get("note", "") or "Every execution within the bounds in the evidence file is run on the real code and compared with an independent reference model; nothing is claimed beyond the bounds. Trusts deal.II, Trilinos, MPI and the reference models."})
na = [{"property": p, "reason": NOT_APPLICABLE.get(p, "check under construction")}
      for p in props if p not in PLAN]
json.dump({"version": 1, "setup_cmd": "python3 run.py all",
           "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the harnesses drive mfmg through its public interfaces and header overlays in /verif/overlay."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
