#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and jobs.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, HERE + "/tools"]
import jobs, props
with open(HERE + "/properties.jsonl", "w") as f:
    for p in props.P: f.write(json.dumps(p) + "\n")
ids = [p["id"] for p in props.P]
assert len(set(ids)) == len(ids)
for p in props.P:
    assert len(p["title"]) <= 80, p["title"]
assert not set(jobs.PROPS) - set(ids), set(jobs.PROPS) - set(ids)
T = "bounded symbolic execution of the LLVM IR of the real sources with an SMT solver (Z3)"
checks = []
for p in props.P:
    if p["id"] not in jobs.PROPS: continue
    J = jobs.PROPS[p["id"]]
    sched = any((u.get("native") or {}).get("sched") for u in J["units"]); real = any(u.get("real") for u in J["units"])
    t = T + (", schedules as symbolic choices under a preemption bound, happens-before race check" if sched else "") + (", exact real arithmetic for floating point" if real else "")
    checks.append(dict(property=p["id"], quick_cmd="python3 check.py %s --tier quick" % p["id"], thorough_cmd="python3 check.py %s --tier thorough" % p["id"],
        technique=t, level="model_checking",
        level_note="Holds for every value of the symbolic inputs%s within the bounds of each unit: %s. Trusted: clang, Z3, the executor in engine/ and its models of library code in rt/ and stubs/; violations are replayed on a native build of the real code before they are reported." % (" and every schedule" if sched else "", "; ".join(u["bounds"] for u in J["units"] if u.get("bounds")))))
na = [dict(property=p["id"], reason=props.NA.get(p["id"], "no check built yet")) for p in props.P if p["id"] not in jobs.PROPS]
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
         notes="Engine: engine/ (symbolic executor), rt/ (models, replay), harness/ (one file per group of properties), jobs.py (what each check runs), check.py (driver).")
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1); open(HERE + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
