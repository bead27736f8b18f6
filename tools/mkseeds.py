#!/usr/bin/env python3
"""Writes seeded/<id>/ from seeds_spec.py and confirms each in a scratch copy; usage: mkseeds.py [id...]"""
import sys, os, subprocess, shutil, json, difflib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + "/tools")
from seeds_spec import S
PRE = '''#include <cmath>
#include <cstdio>
#include <cstdlib>
#include "MathUtils/%s"
using namespace mathutils;
static int bad = 0;
static void chk(bool b) { if (!b) { std::printf("check failed\\n"); bad = 1; } }
static void near(double a, double b, double t = 1e-9) { if (!(std::abs(a - b) <= t * (1 + std::abs(b)))) { std::printf("%%.12g is not %%.12g\\n", a, b); bad = 1; } }
int main() {%sreturn bad; }
'''
SH = '''#!/bin/bash
# Run with cwd /repo: compiles the demonstration against the library's headers and runs it.
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d) || exit 2; trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O0 -w -I"$PWD/src" -isystem /usr/include/eigen3 "$d/demo.cpp" -o "$t/demo" || exit 2
"$t/demo"
'''
def write(s):
    d = V + "/seeded/" + s["id"]; os.makedirs(d, exist_ok=True)
    p = "src/MathUtils/" + s["file"]; t = subprocess.run(["git", "-C", "/repo", "show", "HEAD:" + p], capture_output=True, text=True).stdout; n = t
    for a, b in s["edits"]:
        assert n.count(a) >= 1, (s["id"], "text not found"); n = n.replace(a, b, 1) if not s.get("all") else n.replace(a, b)
    diff = "".join(difflib.unified_diff(t.splitlines(True), n.splitlines(True), "a/" + p, "b/" + p))
    open(d + "/patch.diff", "w").write(diff); open(d + "/demo.sh", "w").write(SH); os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.cpp", "w").write(PRE % ("MathUtilsBoost.h" if s["boost"] else "MathUtils.h", s["body"]))
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    return d
def main():
    only = sys.argv[1:]
    for s in S:
        if not s["edits"] or not s["body"] or (only and s["id"] not in only): continue
        d = write(s); w = "/tmp/seedwork_" + s["id"]; shutil.rmtree(w, ignore_errors=True)
        subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
        c = subprocess.run(["bash", d + "/demo.sh"], cwd=w, capture_output=True, text=True)
        a = subprocess.run(["git", "apply", d + "/patch.diff"], cwd=w, capture_output=True, text=True)
        q = subprocess.run(["bash", d + "/demo.sh"], cwd=w, capture_output=True, text=True)
        print(s["id"], s["prop"], "clean", c.returncode, "apply", a.returncode, "patched", q.returncode, (c.stderr[-600:] if c.returncode else ""), q.stdout[:100].replace("\n", ";"), q.stderr[-600:] if q.returncode == 2 else "", flush=True)
        shutil.rmtree(w)
if __name__ == "__main__": main()
