#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from vlib/props.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from vlib import props
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        f.write(json.dumps(p) + "\n")
na = {n["property"] for n in props.NOT_APPLICABLE}
m = {"version": 1, "setup_cmd": "python3 /verif/tools/setup.py",
     "hooks": {"guard": "none", "enable": "none: the harness uses only the public API", "source_commits": []},
     "checks": [{"property": p["id"], "quick_cmd": "python3 /verif/check.py %s quick" % p["id"],
                 "thorough_cmd": "python3 /verif/check.py %s thorough" % p["id"], "evidence_file": "/verif/evidence/%s.json" % p["id"],
                 "technique": props.CHECKS[p["id"]]["technique"], "level": props.CHECKS[p["id"]]["level"],
                 "level_note": props.CHECKS[p["id"]]["note"]} for p in props.PROPS if p["id"] not in na],
     "not_applicable": props.NOT_APPLICABLE,
     "notes": "TLA+ specifications in spec/, harness crate in harness/, driver check.py. See DESIGN.md."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
import jsonschema
S = "/root/.vp/"
jsonschema.validate(m, json.load(open(S + "MANIFEST.schema.json")))
for p in props.PROPS:
    jsonschema.validate(p, json.load(open(S + "PROPERTIES.schema.json")))
    for fl in p["anchors"]["files"]:
        assert os.path.exists("/repo/" + fl), fl
    assert p["statement"].count(". ") <= 2, p["id"]
    for fk, o, names in props.CHECKS[p["id"]]["runs"]:
        pass
print(len(props.PROPS), "properties")
