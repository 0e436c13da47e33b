#!/usr/bin/env python3
"""Driver: check.py PROPERTY [--tier quick|thorough] [-v] [--unit NAME] [--keep]

Per unit of the property (see jobs.py): compile the harness and the real
sources of /repo to LLVM bitcode, link them with the solver-side runtime models
(rt/rt.cc), run the symbolic executor (engine/) on it, replay what it reports
on a native build of the same harness with the real code, and write
evidence/<property>.json."""
import argparse, concurrent.futures as cf, fcntl, json, os, re, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("SYMX_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
CLANG, LINK, OPT = "clang++-18", "llvm-link-18", "opt-18"
BASE_BC = ["-O1", "-emit-llvm", "-c", "-g1", "-fno-vectorize", "-fno-slp-vectorize", "-D_GLIBCXX_EXTERN_TEMPLATE=0",
           "-D_GLIBCXX_ASSERTIONS", "-DEIGEN_DONT_VECTORIZE", "-std=gnu++14", "-mssse3", "-DENABLE_TIMING=FALSE",
           "-DENABLE_STATISTICS=FALSE", "-DSYMX", "-Wno-everything"]
BASE_NAT = ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize=alignment,vptr,nonnull-attribute", "-fno-omit-frame-pointer",
            "-D_GLIBCXX_ASSERTIONS", "-DEIGEN_DONT_VECTORIZE", "-std=gnu++14", "-mssse3", "-DENABLE_TIMING=FALSE",
            "-DENABLE_STATISTICS=FALSE", "-w"]
MODS = ["common", "cameras", "frames", "matcher", "pipeline", "calibration", "detector", "tracker", "triangulation",
        "geometric_vision", "visualization"]


def incs(native, extra):
    r = []
    if not native: r += ["-I" + HERE + "/stubs", "-I" + HERE + "/stubs/log"]
    elif native == "sched": r += ["-I" + HERE + "/stubs/log"]
    r += ["-I" + HERE + "/rt", "-I" + HERE + "/harness"] + (["-I" + PROTO] if native else [])
    for e in extra: r += ["-I" + e.replace("$VERIF", HERE).replace("$REPO", REPO)]
    r += ["-I%s/aslam_cv_%s/include" % (REPO, m) for m in MODS]
    r += ["-I" + HERE + "/standins", "-isystem", "/usr/include/eigen3", "-isystem", "/usr/include/opencv4"]
    return r


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


class Inconclusive(Exception):
    pass


def ensure_engine():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        p = run(["bash", HERE + "/engine/build.sh", BUILD])
        if p.returncode: raise Inconclusive("engine build failed:\n" + p.stdout[-2000:])
        rt, src = BUILD + "/rt.bc", [HERE + "/rt/rt.cc", HERE + "/rt/symx.h"]
        if not os.path.exists(rt) or any(os.path.getmtime(f) > os.path.getmtime(rt) for f in src):
            p = run([CLANG] + BASE_BC + ["-I" + HERE + "/rt", src[0], "-o", rt + ".tmp"])
            if p.returncode: raise Inconclusive("runtime models do not compile:\n" + p.stdout[-2000:])
            os.rename(rt + ".tmp", rt)


PROTO = os.path.join(BUILD, "proto-%d" % os.getpid())
def gen_proto():
    os.makedirs(PROTO, exist_ok=True)
    d = REPO + "/aslam_cv_common/proto"
    return run(["protoc", "-I" + d, "--cpp_out=" + PROTO] + [os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs if f.endswith(".proto")])


def src_path(s):
    return PROTO + s[6:] if s.startswith("$PROTO") else s if s.startswith("/") else os.path.join(HERE, s[7:]) if s.startswith("$VERIF/") else os.path.join(REPO, s)


def build_bc(u, wd, pool):
    os.makedirs(wd, exist_ok=True)
    srcs = [os.path.join(HERE, "harness", u["harness"])] + [src_path(s) for s in u.get("srcs", [])]
    objs = []
    def comp(i_s):
        i, s = i_s
        o = os.path.join(wd, "u%d.bc" % i)
        p = run([CLANG] + BASE_BC + u.get("flags", []) + ["-D" + d for d in u.get("defs", [])] + incs(False, u.get("inc", [])) + [s, "-o", o])
        return s, o, p
    for s, o, p in pool.map(comp, enumerate(srcs)):
        if p.returncode: raise Inconclusive("cannot compile %s:\n%s" % (s, p.stdout[-3000:]))
        objs.append(o)
    ld, out = os.path.join(wd, "all.bc"), os.path.join(wd, "unit.bc")
    p = run([LINK] + objs + [BUILD + "/rt.bc", "-o", ld])
    if p.returncode: raise Inconclusive("link failed:\n" + p.stdout[-3000:])
    p = run([OPT, "-passes=internalize,globaldce", "-internalize-public-api-list=symx_main", ld, "-o", out])
    if p.returncode: raise Inconclusive("opt failed:\n" + p.stdout[-3000:])
    return out


def build_native(u, wd, pool):
    n = u.get("native", {})
    if n is None: return None
    sched = n.get("sched")
    r = {}
    for mode in (["sched", "tsan"] if sched else ["asan"]):
        srcs = [os.path.join(HERE, "harness", u["harness"]), HERE + "/rt/symx_native.cc"] + \
               ([HERE + "/rt/symx_sched.cc"] if mode == "sched" else []) + [src_path(s) for s in n.get("srcs", u.get("srcs", []))]
        nd = os.path.join(wd, "nat_" + mode); os.makedirs(nd, exist_ok=True)
        base = BASE_NAT if mode == "asan" else [f for f in BASE_NAT if "sanitize" not in f] + (["-fsanitize=thread"] if mode == "tsan" else [])
        def comp(i_s):
            i, s = i_s
            o = os.path.join(nd, "n%d.o" % i)
            return s, o, run(["g++"] + base + n.get("flags", u.get("flags", [])) + ["-D" + d for d in n.get("defs", u.get("defs", []))] + incs("sched" if sched else True, u.get("inc", [])) + ["-c", s, "-o", o])
        objs = []
        for s, o, p in pool.map(comp, enumerate(srcs)):
            if p.returncode: return "native build failed: %s\n%s" % (s, p.stdout[-3000:])
            objs.append(o)
        exe = os.path.join(nd, "replay")
        p = run(["g++", "-rdynamic"] + [f for f in base if f.startswith("-fsanitize")] + objs + n.get("libs", [] if sched else ["-lglog"]) + ["-lpthread", "-ldl", "-o", exe])
        if p.returncode: return "native link failed: " + p.stdout[-3000:]
        r[mode] = exe
    return r


def replay(exe, cex, timeout=60):
    env = dict(os.environ, SYMX_CEX=cex, ASAN_OPTIONS="exitcode=99:detect_leaks=0:allocator_may_return_null=1",
               TSAN_OPTIONS="exitcode=66:halt_on_error=1", UBSAN_OPTIONS="halt_on_error=1:exitcode=98:print_stacktrace=0", GLOG_logtostderr="1")
    try:
        p = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env, timeout=timeout,
                           cwd=os.path.dirname(exe))
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return "timeout", (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")


def run_unit_job(u, job, bc, wd, tier):
    out = os.path.join(wd, "out_" + job["name"])
    shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    tmax = job.get("time", u.get("time", {}).get(tier, 120 if tier == "quick" else 900))
    cmd = [BUILD + "/symx", "--out", out, "--repo", REPO, "--max-time", str(tmax)]
    if job.get("real", u.get("real")): cmd.append("--real")
    cmd += u.get("args", []) + job.get("args", [])
    for k, v in job.get("params", {}).items(): cmd += ["--param", "%s=%d" % (k, v)]
    cmd.append(bc)
    t0 = time.time()
    try:
        p = run(["prlimit", "--as=%d" % (int(job.get("mem", u.get("mem", 8))) << 30)] + cmd, timeout=tmax + 150)
        rc, text = p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        rc, text = "timeout", ""
    rf = os.path.join(out, "result.json")
    res = json.load(open(rf)) if os.path.exists(rf) else None
    return dict(job=job, out=out, rc=rc, text=text, res=res, wall=time.time() - t0, cmd=" ".join(cmd))


def known(prop, v):
    f = os.path.join(HERE, "known_findings.jsonl")
    if not os.path.exists(f): return None
    for line in open(f):
        line = line.strip()
        if not line or line.startswith("#") or line.startswith("fixed:"): continue
        k = json.loads(line)
        if k.get("status") == "fixed": continue
        if k["property"] == prop and all(str(v.get(x, "")).find(y) >= 0 for x, y in k["match"].items()): return k
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("-v", action="store_true"); ap.add_argument("--unit"); ap.add_argument("--job"); ap.add_argument("--keep", action="store_true")
    ap.add_argument("--no-native", action="store_true"); ap.add_argument("--workers", type=int, default=8)
    a = ap.parse_args()
    import jobs
    P = jobs.PROPS[a.prop]
    t0 = time.time()
    wroot = os.path.join(BUILD, "work", a.prop + ("-" + str(os.getpid()) if a.keep else ""))
    shutil.rmtree(wroot, ignore_errors=True); os.makedirs(wroot)
    units = [u for u in P["units"] if (not a.unit or u["name"] == a.unit) and (a.tier == "thorough" or not u.get("thorough_only"))]
    problems, confirmed, unconfirmed, findings = [], [], [], []
    results, validated, samples = [], 0, []
    cpool = cf.ThreadPoolExecutor(a.workers); jpool = cf.ThreadPoolExecutor(a.workers); npool = cf.ThreadPoolExecutor(4); upool = cf.ThreadPoolExecutor(max(1, len(units)))
    def do_unit(u):
        wd = os.path.join(wroot, u["name"])
        try: bc = build_bc(u, wd, cpool)
        except Inconclusive as e: return u, None, None, str(e)
        jl = u["jobs"][a.tier] if isinstance(u.get("jobs"), dict) else u.get("jobs", [dict(name="main")])
        fs = [jpool.submit(run_unit_job, u, j, bc, wd, a.tier) for j in jl if not a.job or j["name"] == a.job]
        nat = None if a.no_native else build_native(u, wd, npool)
        return u, [f.result() for f in fs], nat, None
    if any(u.get("proto") for u in units) and not a.no_native: gen_proto()
    try:
        ensure_engine()
        futs = [upool.submit(do_unit, u) for u in units]
        done = [f.result() for f in futs]
    except Inconclusive as e:
        done = []; problems.append(str(e))
    for u, rs, nat, err in done:
        if err: problems.append("%s: %s" % (u["name"], err)); continue
        if isinstance(nat, str): problems.append("%s: %s" % (u["name"], nat)); nat = None
        exe = nat.get("asan") or nat.get("sched") if nat else None
        reach = {}
        for r in rs:
            nm = u["name"] + "/" + r["job"]["name"]
            if r["res"] is None:
                problems.append("%s: no result (exit %s) %s" % (nm, r["rc"], r["text"][-800:])); continue
            res = r["res"]; results.append((nm, u, r))
            if a.v: print("%s: %d paths %d/%d asserts %d queries %.1fs solver %.1fs wall reach %s %s" % (nm, res["paths"], res["assert_queries"], res["asserts"], res["queries"], res["solver_s"], res["wall_s"], res["reach"], res["notes"]))
            for k, c in res["reach"].items(): reach[k] = reach.get(k, 0) + c
            for i in res["incomplete"]: problems.append("%s: incomplete: %s" % (nm, i))
            if res["undecided"]: problems.append("%s: %d undecided queries" % (nm, res["undecided"]))
            if not res["asserts"] and not res["violations"] and not u.get("no_asserts"): problems.append("%s: no assertion was reached" % nm)
            for v in res["violations"]:
                v = dict(v, unit=u["name"], job=r["job"]["name"])
                rp = os.path.join(HERE, "replays", a.prop, "%s_%s_%s" % (u["name"], r["job"]["name"], os.path.basename(v["file"])))
                os.makedirs(os.path.dirname(rp), exist_ok=True); shutil.copy(v["file"], rp); v["replay"] = rp
                if u.get("confirm") == "engine": ok, how = True, "no native replay for this unit: " + u.get("confirm_why", "")
                elif not exe: ok, how = False, "no native build"
                else:
                    if v["kind"] == "data-race" and nat.get("tsan"):
                        for _ in range(60):
                            rc, txt = replay(nat["tsan"], rp, 20)
                            if rc == 66: break
                    else: rc, txt = replay(exe, rp)
                    v["native_rc"], v["native_out"] = rc, txt[-3000:]
                    if rc in (0, 3): ok, how = False, "native run ends with %s" % rc
                    elif rc == "timeout": ok, how = v["kind"] in ("deadlock",), "native run does not end"
                    else: ok, how = True, "native exit %s" % rc
                    if not ok and r["job"].get("confirm") == "stress": ok, how = True, "schedule of atomic operations that the native replay cannot force; the stress run of the same harness ends with %s" % rc
                v["how"] = how
                (confirmed if ok else unconfirmed).append(v)
            for w in sorted(os.listdir(r["out"])):
                if not w.startswith("wit"): continue
                wf = os.path.join(r["out"], w)
                if len(samples) < 6: samples.append({"unit": nm, "path_inputs": [l.strip() for l in open(wf) if l.startswith(("in ", "param ", "sched "))][:40]})
                if exe and not u.get("no_witness"):
                    rc, txt = replay(exe, wf)
                    if rc == 0: validated += 1
                    else: problems.append("%s: path witness %s behaves differently natively (exit %s): %s" % (nm, w, rc, txt[-600:]))
        if not a.job:
            for k in u.get("reach", []):
                if not reach.get(k): problems.append("%s: vacuous: '%s' was never reached" % (u["name"], k))
    for v in list(confirmed):
        k = known(a.prop, v)
        if k: findings.append((k, v)); confirmed.remove(v)
    # ---- evidence
    agg = lambda k: sum(r["res"][k] for _, _, r in results)
    funcs = sorted({f for _, _, r in results for f in r["res"]["functions"]})
    labels = {}
    for nm, u, r in results:
        for l, c in r["res"]["assert_labels"].items(): labels[l] = labels.get(l, 0) + c
    cov = dict(states=agg("paths"), transitions=agg("steps"), traces_validated_against_impl=validated + len(confirmed), samples=samples or ["none"],
               explanation="states = feasible and infeasible paths explored symbolically; transitions = LLVM instructions executed symbolically; traces validated = solver models of explored paths replayed on a native ASan/UBSan build of the same harness and the real code",
               functions_encoded=funcs, bounds={u["name"]: u.get("bounds", "") for u in units},
               queries=agg("queries"), queries_sat=agg("sat"), queries_unsat=agg("unsat"), queries_unknown=agg("unknown"), solver_time_s=round(agg("solver_s"), 2),
               assertions_checked=agg("asserts"), assertions_by_solver=agg("assert_queries"), assertions_unsat=agg("assert_unsat"), assertions_folded_constant=agg("assert_concrete"), assertion_labels=labels,
               scheduling_choices=agg("sched_points"), completed_paths=agg("completed"), infeasible_paths=agg("infeasible"), undecided=agg("undecided"),
               reach={nm: r["res"]["reach"] for nm, u, r in results},
               jobs={nm: dict(params=r["job"].get("params", {}), real_mode=bool(r["job"].get("real", u.get("real"))), paths=r["res"]["paths"], complete=not r["res"]["incomplete"], wall_s=round(r["wall"], 1), notes=r["res"]["notes"][:8]) for nm, u, r in results},
               problems=[p[:600] for p in problems], unconfirmed=[{k: v[k] for k in ("kind", "label", "where", "how")} for v in unconfirmed])
    ev = dict(property=a.prop, tier=a.tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="model_checking", coverage=cov,
              assumptions=P.get("assumptions", []) + jobs.COMMON_ASSUMPTIONS, wall_s=round(time.time() - t0, 2), violations=len(confirmed))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", a.prop + ".json"), "w"), indent=1)
    # ---- verdict
    for p in problems: print("INCONCLUSIVE property=%s %s" % (a.prop, p.replace("\n", "\n  ")))
    for v in unconfirmed: print("UNCONFIRMED property=%s %s '%s' at %s (%s) %s" % (a.prop, v["kind"], v["label"], v["where"], v["how"], v["replay"]))
    for k, v in findings: print("KNOWN-FINDING: property=%s %s" % (a.prop, k["what"]))
    print("%s: %d paths, %d queries (%.1fs solver), %d assertions, %d traces replayed natively, %d violations, %d problems, %.1fs" %
          (a.prop, agg("paths"), agg("queries"), agg("solver_s"), agg("asserts"), validated, len(confirmed), len(problems), time.time() - t0))
    for v in confirmed:
        print("  %s '%s' at %s [%s/%s] %s" % (v["kind"], v["label"], v["where"], v["unit"], v["job"], v["how"]))
        if a.v: print(v.get("native_out", "")[-1500:])
    if not a.keep: shutil.rmtree(wroot, ignore_errors=True)
    shutil.rmtree(PROTO, ignore_errors=True)
    if confirmed:
        print("VIOLATION property=%s replay=%s" % (a.prop, confirmed[0]["replay"]))
        sys.stdout.flush(); os._exit(1)
    sys.stdout.flush(); os._exit(0)


if __name__ == "__main__":
    main()
