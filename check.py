#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] : compile the harnesses of one property against /repo/src, execute them
symbolically (engine/vpsym), replay counterexamples natively, write evidence/<property>.json.
exit 0: every obligation discharged; exit 1 + VIOLATION line: a counterexample reproduced on the real code;
exit 2: no answer (does not compile; most cases unsupported or undecided: single ones are listed in the output and the evidence)."""
import sys, os, re, json, subprocess, time, glob, shutil, tempfile, concurrent.futures as cf
ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
CLANG = "clang++-18"
INC = ["-I" + ROOT + "/harness", "-I" + REPO + "/src", "-isystem", "/usr/include/eigen3"]
BCFLAGS = "-std=c++17 -O1 -fno-jump-tables -fno-pic -fno-pie -fno-inline -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -ffp-contract=off -fno-math-errno -DEIGEN_DONT_VECTORIZE -DEIGEN_NO_CPUID -DVP_ENGINE -w -c -emit-llvm".split()
NATFLAGS = "-ftrivial-auto-var-init=pattern -std=c++17 -O1 -g1 -ffp-contract=off -fsanitize=address,return,unreachable,integer-divide-by-zero,signed-integer-overflow,float-cast-overflow,bounds -fno-sanitize-recover=all -w".split()
def main():
    prop = sys.argv[1]; tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    only = sys.argv[sys.argv.index("--case") + 1] if "--case" in sys.argv else None
    verbose = "-v" in sys.argv
    try: seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError: seed = 1
    t0 = time.time(); deadline = t0 + (780 if tier == "quick" else 5400)
    if subprocess.run(["bash", ROOT + "/engine/build.sh"]).returncode: print("engine does not build"); return 2
    cfg = json.load(open(ROOT + "/harness/config.json")).get(prop, {})
    work = tempfile.mkdtemp(prefix="vp_%s_" % prop)
    try: return run(prop, tier, seed, only, verbose, t0, deadline, cfg, work)
    finally: shutil.rmtree(work, ignore_errors=True)
def run(prop, tier, seed, only, verbose, t0, deadline, cfg, work):
    srcs = sorted(f for f in glob.glob(ROOT + "/harness/" + prop + "*.cpp") if re.fullmatch(prop + r"[a-z]?\.cpp", os.path.basename(f)))
    D = ["-DVP_TIER=%d" % (1 if tier == "quick" else 2)]
    pool = cf.ThreadPoolExecutor(max_workers=8)
    def comp(cmd): return subprocess.run(cmd, capture_output=True, text=True)
    jobs = {}
    for s in srcs:
        b = os.path.basename(s)[:-4]
        jobs[b] = (pool.submit(comp, [CLANG] + BCFLAGS + D + INC + [s, "-o", f"{work}/{b}.bc"]),
                   pool.submit(comp, [CLANG] + NATFLAGS + D + INC + [s, "-o", f"{work}/{b}.native"]))
        with open(f"{work}/{b}.vg.sh", "w") as f:   # replay of uninitialised reads: plain build under valgrind, built on first use
            f.write("#!/bin/bash\n[ -x %s/%s.plain ] || flock %s/%s.lock %s -std=c++17 -O0 -g1 -ffp-contract=off -w %s %s %s -o %s/%s.plain || exit 76\nexec valgrind -q --error-exitcode=99 %s/%s.plain \"$@\"\n" % (work, b, work, b, CLANG, " ".join(D), " ".join(INC), s, work, b, work, b))
        os.chmod(f"{work}/{b}.vg.sh", 0o755)
    tasks = []; expected = set(); errors = []
    for s in srcs:
        b = os.path.basename(s)[:-4]
        for j in jobs[b]:
            r = j.result()
            if r.returncode: errors.append(f"{b} does not compile against the current tree:\n" + r.stderr[:3000])
        if errors: continue
        for l in subprocess.run([ROOT + "/build/vpsym", "--list", f"{work}/{b}.bc"], capture_output=True, text=True).stdout.split("\n"):
            if not l: continue
            n, k, mode = l.split(); k = int(k)
            if only and n != only.split(":")[0]: continue
            for a in ([-1] if k < 0 else range(k)):
                if only and ":" in only and int(only.split(":")[1]) != a: continue
                tasks.append((b, n, a, mode == "1"))
        src = re.sub(r"//[^\n]*", "", open(s).read())
        for m in re.finditer(r'\bvp_(?:assert|near|nearc|exit_begin)\s*\(', src):   # last string literal of the call (first for exit)
            d, i = 1, m.end()
            while i < len(src) and d: d += {"(": 1, ")": -1}.get(src[i], 0); i += 1
            lits = re.findall(r'"((?:[^"\\]|\\.)*)"', src[m.end():i])
            if lits: expected.add(lits[0] if "exit_begin" in m.group(0) else lits[-1])
    if errors: print("\n".join(errors)); return 2
    known = []; kf = ROOT + "/known_findings.txt"
    if os.path.exists(kf):
        for l in open(kf):
            m = re.match(r"finding: property=(\S+) case=(\S+) id=(\S+) (.*)", l)
            if m and m.group(1) == prop: known.append(m.groups())
    def is_known(d, v): return [x for x in known if x[1] == d["case"] and x[2] == v["id"]]
    import threading
    found = threading.Event(); running = set()   # a confirmed violation ends the run: the verdict is known
    def one(t):
        b, n, a, ieee = t; left = deadline - time.time()
        if found.is_set(): return dict(case=n, arg=a, skipped=1, harness=b)
        if left < 5: return dict(case=n, arg=a, errors=["no time left"], harness=b)
        out = f"{work}/{b}_{n}_{a}.json"; os.makedirs(f"{work}/{b}_{n}_{a}", exist_ok=True)
        cmd = [ROOT + "/build/vpsym", f"{work}/{b}.bc", "--case", n, "--arg", str(a), "--replay", f"{work}/{b}.native", "--replayvg", f"{work}/{b}.vg.sh", "--out", out, "--work", f"{work}/{b}_{n}_{a}", "--time", str(min(left - 3, cfg.get("case_s", 600))), "--seed", str(seed), "--tassert", str(cfg.get("tassert", 40))] + (["--ieee"] if ieee else [])
        if "paths" in cfg: cmd += ["--paths", str(cfg["paths"])]
        if tier != "quick": cmd += ["--validate", "20", "--tassert", str(3 * cfg.get("tassert", 40))]
        ef = open(f"{work}/{b}_{n}_{a}/stderr", "w+"); p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=ef, start_new_session=True); running.add(p)
        try: p.wait(timeout=left + 60)
        except subprocess.TimeoutExpired: kill(p); return dict(case=n, arg=a, errors=["engine timeout"], harness=b)
        finally: running.discard(p)
        try: d = json.load(open(out))
        except Exception:
            if found.is_set(): return dict(case=n, arg=a, skipped=1, harness=b)
            ef.seek(0); return dict(case=n, arg=a, errors=[f"engine failed rc={p.returncode} {ef.read()[-500:]}"], harness=b)
        d["harness"] = b
        if any(v["confirmed"] and not is_known(d, v) for v in d.get("violations", [])):
            found.set(); time.sleep(1)
            for q in list(running): kill(q)
        return d
    def kill(p):
        try: os.killpg(p.pid, 9)
        except OSError: pass
    res = list(pool.map(one, tasks))
    reached = {}; tot = {}
    for d in res:
        for k, v in d.get("reached", {}).items(): reached[k] = reached.get(k, 0) + v
        for k, v in d.items():
            if isinstance(v, (int, float)) and k != "arg": tot[k] = tot.get(k, 0) + v
        if verbose: print("%s %s:%s paths=%s obl=%s q=%s solver=%.1fs wall=%.1fs undecided=%s err=%s" % (d["harness"], d["case"], d["arg"], d.get("paths"), d.get("obligations"), d.get("queries"), d.get("solver_s", 0), d.get("wall_s", 0), d.get("undecided_msgs"), d.get("errors")))
    viol = [(d, v) for d in res for v in d.get("violations", []) if v["confirmed"]]
    newv = []; printed = set()
    for d, v in viol:
        k = is_known(d, v)
        if k:
            if k[0] not in printed: print(f"KNOWN-FINDING: property={prop} {k[0][3]}"); printed.add(k[0])
        else: newv.append((d, v))
    rc = 0
    if newv:
        rdir = f"{ROOT}/replays/{prop}"; os.makedirs(rdir, exist_ok=True)
        for i, (d, v) in enumerate(newv[:5]):
            base = f"{rdir}/{d['harness']}_{d['case']}_{d['arg']}_{i}"
            try: shutil.copy(v["inputs"], base + ".in")
            except Exception: pass
            with open(base + ".txt", "w") as f:
                f.write(f"property {prop}, harness/{d['harness']}.cpp case {d['case']} arg {d['arg']}\nassertion/event: {v['id']} ({v['kind']})\n{v['detail']}\nnative replay output:\n{v['native']}\ninputs:\n" + (open(base + ".in").read() if os.path.exists(base + ".in") else "") + f"\nreplay: {CLANG} {' '.join(NATFLAGS + D + INC)} {ROOT}/harness/{d['harness']}.cpp -o /tmp/r && /tmp/r {d['case']} {d['arg']} {base}.in\n")
            print(f"VIOLATION property={prop} replay={base}.txt   [{d['case']}:{d['arg']} {v['id']} {v['kind']}: {v['detail'][:200]}]")
        rc = 1
    errs = [f"{d['case']}:{d['arg']}: {e}" for d in res for e in d.get("errors", [])]
    und = [f"{d['case']}:{d['arg']}: {e}" for d in res for e in d.get("undecided_msgs", [])]
    missing = sorted(expected - set(reached)) if not only else []
    nbad = len(set((d["case"], d["arg"]) for d in res if d.get("errors") or d.get("undecided_msgs")))
    if rc == 0 and (errs or und or missing):
        for e in errs[:10]: print("ERROR", e)
        for e in und[:10]: print("UNDECIDED", e)
        if missing and not errs: print("VACUOUS assertions never reached:", missing)
        # the property held on everything that was decided; what was not is listed above and in the evidence. Without an answer for most of it: no verdict
        if 2 * nbad > len(tasks) or 2 * len(missing) > len(expected) or not tot.get("obligations"): rc = 2
    funcs = sorted(set(f for d in res for f in d.get("functions", []) if "std::__get_helper" not in f and not f.startswith("std::") and not f.startswith("void std::") and "__gnu_cxx" not in f))
    funcs = [f for f in funcs if re.search(r"mathutils::", f.split("(")[0])]
    stubs = sorted(set(f for d in res for f in d.get("stubs", [])))
    I = lambda k: int(tot.get(k, 0))
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", wall_s=round(time.time() - t0, 2), violations=len(newv),
      coverage=dict(states=I("paths") + I("forks"), transitions=I("decisions"), traces_validated_against_impl=I("validated"),
        paths=I("paths"), infeasible_paths=I("infeasible"), ir_instructions=I("instructions"),
        obligations=I("obligations"), discharged_by_solver=I("by_solver"), discharged_by_exact_normal_form=I("by_normal_form"), concrete_on_symbolic_path=I("concrete"), undecided=I("undecided"),
        queries=I("queries"), queries_sat=I("sat"), queries_unsat=I("unsat"), queries_unknown=I("unknown"), range_folds_confirmed_by_solver=I("folds"), linear_relaxation_unsat=I("relaxed"), solver_s=round(tot.get("solver_s", 0), 3), native_replays=I("replays"),
        cases=len(tasks), cases_without_verdict=nbad, not_decided=(errs + und)[:40], assertions_not_reached=missing, assertion_ids={k: reached[k] for k in sorted(reached)}, functions_encoded=funcs, bounds=cfg.get("bounds", "") if tier == "quick" else cfg.get("bounds_thorough", cfg.get("bounds", "")),
        explanation="states: symbolic states (explored paths plus forks); transitions: symbolic branch decisions; every obligation is checked for all values of the symbolic inputs of its path",
        samples=[s for d in res for s in d.get("samples", [])][:6] or ["none"]),
      assumptions=cfg.get("assumptions", []) + ["doubles are exact reals in 'real' cases; IEEE-754 terms in 'ieee' cases", "stubs: " + (", ".join(stubs) or "none")])
    os.makedirs(ROOT + "/evidence", exist_ok=True)
    json.dump(ev, open(f"{ROOT}/evidence/{prop}.json", "w"), indent=1)
    print(f"{prop} {tier}: rc={rc} cases={len(tasks)} paths={I('paths')} obligations={I('obligations')} queries={I('queries')} solver={tot.get('solver_s',0):.1f}s validated={I('validated')} wall={time.time()-t0:.1f}s")
    return rc
if __name__ == "__main__": sys.exit(main())
