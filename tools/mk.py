#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
D = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(D)
sys.path.insert(0, D)
from props import PROPS, NA
TECH = "symbolic execution of the real code's LLVM IR, every path decided by SMT (z3, cross-checked with cvc5)"
with open(V + "/properties.jsonl", "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"].split(), "text": p["all"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": p["files"].split(), "mechanism": [{"name": x.split(" ")[0].rstrip(","), "where": p["files"].split()[0] + ": " + x} for x in p["mech"]]}}
        f.write(json.dumps(d) + "\n")
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [
    {"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"],
     "thorough_cmd": "python3 check.py %s thorough" % p["id"],
     "technique": p.get("tech", TECH), "level": "model_checking",
     "level_note": p["note"]} for p in PROPS if p["id"] not in NA],
    "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()]}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
