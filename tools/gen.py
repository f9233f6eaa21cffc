#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/catalog.py"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from catalog import PROPS, NA

TECH = "static analysis: abstract interpretation of the crate's MIR (convex integer facts, gated value numbering of reals) against a declarative rule"
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS + NA:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p.get("over", ["inputs"]), "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": p["obs"], "hook_needed": None},
        }, ensure_ascii=False) + "\n")
man = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": [{
        "property": p["id"], "quick_cmd": f"python3 check.py {p['id']}", "thorough_cmd": f"python3 check.py {p['id']} --thorough",
        "technique": p.get("technique", TECH), "level": p.get("level", "proof"),
        "level_note": p["note"],
    } for p in PROPS],
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
    "notes": "No hooks in /repo. Every check rebuilds the MIR dump from /repo's current sources; DESIGN.md describes the engine.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1, ensure_ascii=False)
    f.write("\n")
import jsonschema
S = lambda n: json.load(open("/root/.vp/" + n))
jsonschema.validate(man, S("MANIFEST.schema.json"))
for l in open(os.path.join(HERE, "properties.jsonl")):
    jsonschema.validate(json.loads(l), S("PROPERTIES.schema.json"))
print(len(PROPS), "claimed,", len(NA), "not applicable")
