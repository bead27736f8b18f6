#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and harness/config.json."""
import json, os, glob
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
cfg = json.load(open(R + "/harness/config.json"))
checks, na = [], []
for p in props:
    i = p["id"]; c = cfg.get(i, {})
    if glob.glob(f"{R}/harness/{i}.cpp") or glob.glob(f"{R}/harness/{i}[a-z].cpp"):
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} --tier quick", thorough_cmd=f"python3 check.py {i} --tier thorough",
            evidence_file=f"evidence/{i}.json", technique="symbolic execution of the LLVM IR of the real headers + SMT (z3/cvc5), native replay of counterexamples",
            level="model_checking", level_note="Bounded: " + c.get("bounds", "") + ". Holds for every value of the symbolic inputs within these bounds" + (" over exact real arithmetic up to the stated tolerance" if not c.get("ieee") else "") + "; trusts the IR interpreter (cross-validated natively on solver witnesses), clang, the SMT solvers and the listed stubs." + (" " + c["note"] if c.get("note") else "")))
    else: na.append(dict(property=i, reason=c.get("na", "check not built yet")))
m = dict(version=1, setup_cmd="bash engine/build.sh", hooks=dict(guard="none", enable="no hooks are needed: harnesses use the public API", source_commits=[]), checks=checks, not_applicable=na, notes="See DESIGN.md")
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1); open(R + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks", len(na), "not applicable")
