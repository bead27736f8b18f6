#!/usr/bin/env python3
"""DESIGN.md = tools/design_head.md + one section per property (how it is decided; bounds from harness/config.json) + seeded table + tail."""
import json, os, glob, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [json.loads(l) for l in open(R + "/properties.jsonl")]
C = json.load(open(R + "/harness/config.json"))
D = {}
for m in re.finditer(r"^## (C\d\d)\n(.*?)(?=^## |\Z)", open(R + "/tools/design_props.md").read(), re.S | re.M): D[m.group(1)] = m.group(2).strip()
cost = json.load(open(R + "/tools/design_cost.json"))
o = [open(R + "/tools/design_head.md").read().rstrip(), "", "## Per property", ""]
for p in P:
    i = p["id"]; c = C[i]; k = cost.get(i, {})
    o += ["### %s %s" % (i, p["title"]), "", D[i], "",
          "*Bounds (quick)*: %s. *Thorough adds*: %s." % (c["bounds"], c["bounds_thorough"]),
          "*Cost (quick, 8 cores)*: %s s, %s cases, %s paths, %s obligations, %s solver queries." % tuple(k.get(x, "?") for x in ("wall", "cases", "paths", "obligations", "queries")), ""]
o += ["## Planted bugs and the checks that catch them", "", "Every one compiles, passes the 56 stable tests, and is caught (exit 1) by the quick check of its property.", "", "| bug | property (= check that catches it) | needs | breaks |", "|---|---|---|---|"]
for f in sorted(glob.glob(R + "/seeded/*/meta.json")):
    d = json.load(open(f)); o.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), d["property"], d["needs"].replace("|", "/"), d["what_it_breaks"].replace("|", "/")))
o += ["", open(R + "/tools/design_tail.md").read().rstrip(), ""]
open(R + "/DESIGN.md", "w").write("\n".join(o))
