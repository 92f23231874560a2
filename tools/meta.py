#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below (the single place they are kept)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from props import PROPS, NOT_APPLICABLE
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
claimed = [p for p in PROPS if p.get("claimed", True)]
with open(f"{root}/properties.jsonl", "w") as f:
    for p in PROPS:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
        }, ensure_ascii=False) + "\n")
m = {
    "version": 1,
    "setup_cmd": "./check.sh build",
    "hooks": {"guard": "none", "enable": "no hooks: the checks use the public API of the crate built from the working tree", "source_commits": []},
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"./check.sh {p['id']} --tier quick",
        "thorough_cmd": f"./check.sh {p['id']} --tier thorough",
        "technique": p["technique"],
        "level": "model_checking",
        "level_note": p["note"],
    } for p in claimed],
    "not_applicable": [{"property": a, "reason": b} for a, b in NOT_APPLICABLE] + [{"property": p["id"], "reason": p["unclaimed"]} for p in PROPS if not p.get("claimed", True)],
}
with open(f"{root}/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False); f.write("\n")
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for l in open(f"{root}/properties.jsonl"):
    jsonschema.validate(json.loads(l), sch)
print(len(PROPS), "properties,", len(claimed), "claimed")
