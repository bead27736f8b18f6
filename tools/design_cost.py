#!/usr/bin/env python3
"""copy the cost figures of the last quick runs from evidence/ into tools/design_cost.json"""
import json, os, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); o = {}
for f in sorted(glob.glob(R + "/evidence/C*.json")):
    d = json.load(open(f)); c = d["coverage"]
    if d["tier"] == "quick": o[d["property"]] = dict(wall=round(d["wall_s"]), cases=c["cases"], paths=c["paths"], obligations=c["obligations"], queries=c["queries"], undecided=c["undecided"])
json.dump(o, open(R + "/tools/design_cost.json", "w"), indent=0, sort_keys=True)
