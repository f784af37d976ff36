#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and checks.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.path.join(HERE, "tools")]
from checks import CHECKS
from props import PROPS

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
        q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q) + "\n")
checks, na = [], []
for p in PROPS:
    i = p["id"]
    if i in CHECKS:
        checks.append({
            "property": i,
            "quick_cmd": "python3 run.py %s quick" % i,
            "thorough_cmd": "python3 run.py %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": p.get("technique", "TLA+ specification checked with TLC; traces of the real code validated against it"),
            "level": "model_checking",
            "level_note": p["note"],
        })
    else:
        na.append({"property": i, "reason": p.get("na", "check not built yet")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "run.py builds the driver in harness/ against /repo (go.mod replace), model-checks spec/, replays and records, and validates the traces with TLC."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for l in open(os.path.join(HERE, "properties.jsonl")):
    jsonschema.validate(json.loads(l), s)
print(len(checks), "checks", len(na), "not applicable")
