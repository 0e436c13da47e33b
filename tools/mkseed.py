#!/usr/bin/env python3
"""mkseed.py SPEC.py...: writes seeded/<id>/ (patch.diff, demo.sh, demo.cc, meta.json) from a spec file that
defines SEEDS = [dict(id, prop, edits=[(file, old, new)], needs, breaks, demo=C++ text, libs=, sh=)]."""
import json, os, shutil, subprocess, sys, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = """#!/bin/bash
# cwd: the repository, built.  Exit 0: behaves as specified.
set -e
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
INC=$(for d in aslam_cv_*/include; do echo -n "-I$PWD/$d "; done)
g++ -std=gnu++14 -O1 -g -mssse3 -w -DENABLE_TIMING=FALSE -DENABLE_STATISTICS=FALSE %(flags)s $INC -I"$D" -I"$PWD/_build/proto" -isystem /usr/include/eigen3 -isystem /usr/include/opencv4 "$D/demo.cc" %(srcs)s -o "$T/demo" %(libs)s -lglog -lgflags -lpthread
%(run)s
"""
for spec in sys.argv[1:]:
    for s in runpy.run_path(spec)["SEEDS"]:
        d = os.path.join(V, "seeded", s["id"]); os.makedirs(d, exist_ok=True)
        diff = ""
        files = {}
        for f, o, n in s["edits"]:
            t = files.get(f) or open("/repo/" + f).read()
            assert t.count(o) == 1, (s["id"], f, t.count(o), o)
            files[f] = t.replace(o, n)
        T = "/tmp/mkseed"; shutil.rmtree(T, ignore_errors=True)
        for f, t in files.items():
            for side, txt in (("a", open("/repo/" + f).read()), ("b", t)):
                p = os.path.join(T, side, f); os.makedirs(os.path.dirname(p), exist_ok=True); open(p, "w").write(txt)
        for f in files:
            diff += subprocess.run(["diff", "-u", "a/" + f, "b/" + f], cwd=T, stdout=subprocess.PIPE, text=True).stdout
        diff = "\n".join(l.split("\t")[0] if l.startswith(("--- ", "+++ ")) else l for l in diff.split("\n"))
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.cc", "w").write(s["demo"])
        open(d + "/demo.sh", "w").write(SH % dict(flags=s.get("flags", ""), srcs=s.get("srcs", ""), libs=s.get("libs", ""), run=s.get("run", 'timeout 120 "$T/demo"')))
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
        print("wrote", s["id"])
        shutil.rmtree(T, ignore_errors=True)
