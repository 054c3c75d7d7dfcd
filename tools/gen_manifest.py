#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "tools"))
from plan import PLAN, TECHNIQUE, NOTE, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks = []
DEF_T = "stateful property-based testing against a reference model, with generated thread schedules"
for q in props:
    i = q["id"]
    if i not in PLAN:
        continue
    hs = ", ".join("%s (%s)" % (x["name"], x["variant"]) for x in PLAN[i])
    checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
      "thorough_cmd": "python3 check.py %s --tier thorough" % i, "evidence_file": "evidence/%s.json" % i,
      "technique": TECHNIQUE.get(i, DEF_T), "level": "exploration",
      "level_note": (NOTE.get(i, "") + " Harnesses: " + hs + ". Held on every generated case; trusts the oracle in the harness, GLib, and the controlled scheduler of harness/vs.c.").strip()})
na = [{"property": q["id"], "reason": NOT_APPLICABLE.get(q["id"], "check not built yet")} for q in props if q["id"] not in PLAN]
m = {"version": 1, "setup_cmd": "python3 tools/build.py all", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: instrumentation is added at compile time (coverage callbacks, --wrap, a forced include), see DESIGN.md."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
