#!/usr/bin/env python3
"""Builds the simulator and one property's scenarios from /repo's working tree, runs the seeded search, writes evidence.

usage: run_check.py <property> [--tier quick|thorough] [--runs N] [--time S] [--scenario NAME] [--keep] [--build-only]
       run_check.py --replay <replay file>
exit 0: held on everything explored; 1: VIOLATION line printed; anything else: the check itself failed.
"""
import concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SIM = V + "/sim"
CXX = "g++-14" if shutil.which("g++-14") else "g++"
RTFLAGS = "-std=gnu++23 -O2 -g1 -fno-pie -fno-threadsafe-statics -fno-builtin -w".split()
INSTR = ["-std=gnu++23", "-g1", "-fno-pie", "-fopenmp", "-fsanitize=thread", "-w", "-iquote", REPO, "-I" + SIM, "-I" + V + "/checks",
         "-include", SIM + "/sim_pstl.h"]
LINK = ["-no-pie", "-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset", "-ldl", "-lpthread"]
sys.path.insert(0, V + "/checks")
import table

SKIPPED = []

def build(prop, spec, bdir):
    os.makedirs(bdir, exist_ok=True)
    jobs = []
    for s in ("rt", "vfs", "driver"):
        jobs.append((SIM + "/" + s + ".cpp", bdir + "/" + s + ".o", RTFLAGS))
    for s in spec["src"]:
        jobs.append((V + "/checks/" + s, bdir + "/" + s.replace("/", "_") + ".o", INSTR + [spec.get("opt", "-O1")] + spec.get("flags", [])))
    for s in spec.get("repo", []):
        s, own = s if isinstance(s, tuple) else (s, spec.get("repo_flags", []))
        jobs.append((REPO + "/" + s, bdir + "/repo_" + s.replace("/", "_") + ".o", INSTR + [spec.get("repo_opt", "-O1")] + spec.get("flags", []) + own))

    def one(j):
        src, obj, fl = j
        if os.environ.get("VERIF_DEV") and src.startswith(REPO) and os.path.exists(obj) and all(os.path.getmtime(os.path.join(REPO, x)) < os.path.getmtime(obj) for x in os.listdir(REPO) if x.endswith((".h", ".cpp"))):
            return src, 0, ""   # development only: keep an object that is newer than every source
        p = subprocess.run([CXX] + fl + ["-c", src, "-o", obj], capture_output=True, text=True)
        return src, p.returncode, p.stderr

    # A scenario file that no longer compiles against the tree (an internal name it calls was changed) is left out and reported
    # in the evidence; the check still answers from the others. Nothing is left out on the tree the checks were written for.
    scen = {V + "/checks/" + s for s in spec["src"]}
    SKIPPED.clear()
    with cf.ThreadPoolExecutor(8) as ex:
        for src, rc, err in ex.map(one, jobs):
            if rc:
                sys.stderr.write("compilation failed: %s\n%s\n" % (src, err[-6000:]))
                if src in scen and len(SKIPPED) + 1 < len(scen):
                    SKIPPED.append(os.path.basename(src))
                    continue
                return None
    jobs = [j for j in jobs if os.path.basename(j[0]) not in SKIPPED]
    exe = bdir + "/check"
    p = subprocess.run([CXX, "-o", exe] + [j[1] for j in jobs] + LINK, capture_output=True, text=True)
    if p.returncode:
        sys.stderr.write("link failed\n" + p.stderr[-6000:] + "\n")
        return None
    return exe


def symbolise(exe, msg):
    pcs = sorted(set(re.findall(r"\[pc=([0-9a-f]+)\]", msg)))
    if not pcs:
        return msg
    try:
        p = subprocess.run(["addr2line", "-Cfs", "-e", exe] + ["%x" % max(0, int(x, 16) - 1) for x in pcs], capture_output=True, text=True, timeout=120)
        L = p.stdout.split("\n")
        for i, x in enumerate(pcs):
            fn = re.sub(r"<.*>", "<>", L[2 * i])[:80]
            msg = msg.replace("[pc=%s]" % x, "%s (%s)" % (L[2 * i + 1].split(" (")[0], fn))
    except Exception:
        pass
    return msg


def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        txt = open(a[1]).read()
        prop = re.search(r"^property (\S+)", txt, re.M).group(1)
        exe = build(prop, table.PROPS[prop], V + "/build/" + prop)
        if not exe:
            return 2
        p = subprocess.run([exe, "--replay", a[1]], capture_output=True, text=True)
        print(symbolise(exe, p.stdout))
        return p.returncode
    prop = a[0]
    opt = lambda n, d: a[a.index(n) + 1] if n in a else d
    tier = opt("--tier", os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    spec = table.PROPS[prop]
    t0 = time.time()
    bdir = V + "/build/" + prop
    exe = build(prop, spec, bdir)
    if not exe:
        return 2
    tb = time.time() - t0
    if SKIPPED:
        print("left out (do not compile against this tree): " + " ".join(SKIPPED))
    if "--build-only" in a:
        return 0
    runs = int(opt("--runs", spec["thorough" if tier == "thorough" else "quick"]))
    tmax = float(opt("--time", "6000" if tier == "thorough" else str(max(60, 560 - tb))))
    os.makedirs(V + "/out", exist_ok=True)
    os.makedirs(V + "/evidence", exist_ok=True)
    rep = V + "/out/%s.replay" % prop
    if os.path.exists(rep):
        os.remove(rep)
    res = bdir + "/result.json"
    kf = bdir + "/known.tsv"
    known = [k for k in json.load(open(V + "/known_findings.json")) if k.get("status") == "known" and k["property"] == prop] if os.path.exists(V + "/known_findings.json") else []
    with open(kf, "w") as f:
        for k in known:
            f.write("%s\t%s\t%s\n" % (k["scenario"], k["match"], k["what"]))
    cmd = [exe, "--property", prop, "--seed", str(seed), "--runs", str(runs), "--time", str(tmax), "--jobs", str(os.cpu_count() or 8), "--out", res, "--replay-out", rep, "--known", kf]
    if "--scenario" in a:
        cmd += ["--scenario", opt("--scenario", "")]
    if os.path.exists(res):
        os.remove(res)
    p = subprocess.run(cmd, capture_output=True, text=True)
    if not os.path.exists(res):
        sys.stderr.write("the simulator did not report: rc=%d %s\n" % (p.returncode, p.stderr[-3000:]))
        return 2
    r = json.load(open(res))
    msg = symbolise(exe, r["violation"]["message"])
    if r["runs"] == 0:
        sys.stderr.write("no run was executed\n")
        return 2
    sd = max(r["wall_s"], 1e-3)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": r["runs"],
            "distinct_nontrivial": r["distinct_interleavings"],
            "rule": "one evaluation = one simulated run of one scenario from its own seed (inputs, team sizes, schedule and faults all drawn from it); "
                    "distinct = distinct hash over (scenario, sequence of context switches with their step numbers, scenario-reported fault/crash features) among runs with at least one switch or feature",
            "samples": r["samples"],
            "runs_per_hour_one_seed_each": int(r["runs"] / sd * 3600),
            "simulated_seconds": round(r["sim_ns"] * 1e-9, 6), "scheduling_points": r["steps"], "context_switches": r["switches"],
            "instrumented_accesses": r["accesses"], "decisions": r["decisions"], "faults_injected": r["faults"],
            "preemption_sites": r["preemption_sites"], "max_threads": r["max_threads"],
            "distinct_outputs": r["distinct_outputs"],
            "runs_per_scenario": r["scenarios"],
            "same_seed_reruns_identical": r["reruns_identical"], "same_seed_reruns_differing": r["nondeterministic"],
            "reruns_with_other_fill_pattern": r["fill_reruns"],
            "scenario_files_left_out": list(SKIPPED),
            "cut_short_by_time_limit": r["runs"] < r["planned"], "build_seconds": round(tb, 1),
            "real_components": spec["real"],
            "stubbed_components": spec.get("stub", []) + table.COMMON_STUBS,
        },
        "assumptions": table.COMMON_ASSUMPTIONS + spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": 0,
    }
    rc = 0
    if r["nondeterministic"]:
        sys.stderr.write("warning: same-seed re-run differed: %s\n" % r["nondet_sample"])
    for k in r["known"]:
        if k["hits"]:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["label"]))
    if r["rc"] == 1:
        ev["violations"] = 1
        ev["coverage"]["violation"] = {"scenario": r["violation"]["scenario"], "seed": r["violation"]["seed"], "message": msg, "decisions": r["violation"]["decisions"], "minimised_decisions": r["violation"]["minimised"]}
        print("violation in scenario %s (seed %s): %s" % (r["violation"]["scenario"], r["violation"]["seed"], msg))
        print("schedule and fault decisions: %d, minimised to %d" % (r["violation"]["decisions"], r["violation"]["minimised"]))
        print("VIOLATION property=%s replay=%s" % (prop, rep))
        rc = 1
    elif r["rc"] != 0:
        sys.stderr.write("check error: %s %s\n" % (r["violation"]["gate"] + " " + msg, r["error_sample"]))
        rc = 2
    with open(V + "/evidence/%s.json" % prop, "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d runs, %d distinct, %.1fs search, %.1fs build, faults %s" % (prop, tier, r["runs"], r["distinct_interleavings"], r["wall_s"], tb, json.dumps(r["faults"])))
    if "--keep" not in a:
        shutil.rmtree(bdir, ignore_errors=True)
    return rc


if __name__ == "__main__":
    sys.exit(main())
