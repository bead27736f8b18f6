#!/usr/bin/env python3
"""For each planted bug: scratch copy of /repo with the patch; --tests builds and runs the tests there; the check of its property runs on it (VP_REPO)."""
import sys, os, subprocess, shutil, json, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
tests = "--tests" in sys.argv; only = [a for a in sys.argv[1:] if not a.startswith("--")]
base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) if tests else None
for id in sorted(os.listdir(V + "/seeded")):
    if only and id not in only: continue
    d = V + "/seeded/" + id; m = json.load(open(d + "/meta.json")); w = "/tmp/seedrun_" + id; shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", w], check=True); subprocess.run(["git", "apply", d + "/patch.diff"], cwd=w, check=True)
    r = id + " " + m["property"]
    if tests:
        b = open("/opt/vp/build.sh").read().replace("/repo", w); open(w + "/b.sh", "w").write(b)
        x = subprocess.run(["bash", w + "/b.sh"], capture_output=True, text=True)
        if x.returncode: r += " BUILD FAILED " + x.stdout[-300:]
        else:
            t = subprocess.run(["ctest", "--test-dir", w + "/_build", "-j8", "--timeout", "300"], capture_output=True, text=True); r += " tests: " + [l for l in t.stdout.splitlines() if "tests passed" in l or "tests failed" in l][0] + " " + ";".join(l.strip() for l in t.stdout.splitlines() if "(Failed)" in l)
    if "--nocheck" not in sys.argv:
        t0 = time.time(); c = subprocess.run(["python3", V + "/check.py", m["property"]], capture_output=True, text=True, env=dict(os.environ, VP_REPO=w)); v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
        r += " check rc=%d %.0fs %s" % (c.returncode, time.time() - t0, v[0] if v else " | ".join(c.stdout.splitlines()[-3:])[-400:])
    print(r, flush=True); shutil.rmtree(w)
