#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks and the notes below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from checks import specs
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1,
     "setup_cmd": "python3 run.py list",
     "notes": "Every check builds the harness (and where needed the code generator) from /repo's working tree in a scratch directory, "
              "explores it exhaustively within the bounds stated in DESIGN.md and removes the scratch directory again. No hooks in /repo "
              "are required. Counterexamples are re-run from their recorded choices before being reported.",
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in specs.CHECKS:
        t, n = specs.INFO[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 run.py check %s quick" % i,
                            "thorough_cmd": "python3 run.py check %s thorough" % i, "technique": t, "level": "model_checking",
                            "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": specs.NOT_APPLICABLE.get(i, "check not built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
