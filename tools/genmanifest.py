#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks import CHECKS
props = [json.loads(l) for l in open(HERE + "/properties.jsonl")]
NA = {"C26": "The Python bindings cannot be built here (pybind11 is not installed, and the bindings do not compile against this tree), so there is no execution to monitor."}
checks = []
for p in props:
    c = CHECKS.get(p["id"])
    if not c:
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
        "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
        "technique": c["technique"],
        "level": c.get("level", "exploration"),
        "level_note": c["note"],
    })
na = [{"property": p["id"], "reason": NA.get(p["id"], "No check built yet.")} for p in props if p["id"] not in CHECKS]
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the monitors use the public API, compiler instrumentation and replaced allocation functions only. Replay a failure with: python3 check.py --replay replays/<file>.json"}
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(checks), "checks,", len(na), "not applicable")
