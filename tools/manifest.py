#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/properties.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import properties
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props, checks, na = [], [], []
for p in sorted(properties.ALL, key=lambda p: p["id"]):
    p = dict(p)
    chk, reason = p.pop("check", None), p.pop("not_applicable", None)
    props.append(p)
    if chk:
        checks.append(dict(property=p["id"], quick_cmd="./check.sh " + p["id"],
                           thorough_cmd="VERIF_TIER=thorough ./check.sh " + p["id"],
                           technique=chk["technique"], level=chk["level"],
                           level_note=chk["level_note"]))
    else:
        na.append(dict(property=p["id"], reason=reason))
with open(here + "/properties.jsonl", "w") as o:
    for p in props:
        o.write(json.dumps(p) + "\n")
m = dict(version=1, setup_cmd="bash build.sh", checks=checks, not_applicable=na)
with open(here + "/MANIFEST.json", "w") as o:
    o.write(json.dumps(m, indent=1) + "\n")
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in props:
        jsonschema.validate(p, s)
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError:
    print("(no jsonschema)")
print(len(checks), "claimed,", len(na), "not applicable")
