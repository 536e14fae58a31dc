#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "bin"))
import plan
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
ids = [p["id"] for p in props]
assert set(plan.PLAN) <= set(ids), set(plan.PLAN) - set(ids)
checks = []
for p in ids:
    if p in plan.PLAN:
        c = plan.PLAN[p]
        checks.append(dict(property=p, quick_cmd=f"python3 bin/check.py {p}", thorough_cmd=f"python3 bin/check.py {p} thorough",
                           evidence_file=f"evidence/{p}.json",
                           technique=c.get("technique", "TLA+ specification model-checked with TLC; every behaviour it emits is replayed on the real code"),
                           level="model_checking", level_note=c["note"]))
na = [dict(property=p, reason=plan.NOT_APPLICABLE.get(p, "not built yet")) for p in ids if p not in plan.PLAN]
m = dict(version=1, setup_cmd="python3 bin/check.py BUILD", checks=checks, not_applicable=na,
         notes="Specifications in spec/ (TLA+, TLC); replay harness in harness/; bin/plan.py says which decides what. See DESIGN.md.")
if plan.HOOKS:
    m["hooks"] = plan.HOOKS
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in props:
        jsonschema.validate(p, sch)
    print("valid:", len(checks), "checks,", len(na), "not applicable")
except ImportError:
    print("written, not validated")
