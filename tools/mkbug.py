#!/usr/bin/env python3
"""mkbug.py SPEC.py: writes /verif/seeded/<id>/ for every entry of BUGS in SPEC.py.
Entry: dict(id, prop, edits=[(file, old, new), ...], needs, breaks, demo=C++ main body or full source, libs=[...])"""
import sys, os, subprocess, json, shutil, runpy
R = "/var/tmp/mkbug"
if not os.path.exists(R): subprocess.check_call(["git", "clone", "-q", "/repo", R])
subprocess.check_call(["git", "-C", R, "fetch", "-q", "/repo", "HEAD"])
subprocess.check_call(["git", "-C", R, "reset", "-q", "--hard", "FETCH_HEAD"])
LIBORDER = ["algorithms", "dd", "na", "zx", "qasm", "circuit-optimizer", "ds", "ir"]
DIRS = {"qasm": "qasm3", "circuit-optimizer": "circuit_optimizer", "ds": "datastructures"}
SH = '''#!/bin/bash
# exit 0: the property holds in this scenario; non-zero: it is broken
here="$(cd "$(dirname "$0")" && pwd)"; t="$(mktemp -d)"; trap 'rm -rf "$t"' EXIT
B=/repo/_build/src
cd "$t" && g++ -std=c++17 -O1 -w "$here/demo.cpp" -I/repo/include/mqt-core -I$B -o demo %s || exit 3
timeout 120 ./demo
'''
def main():
    g = runpy.run_path(sys.argv[1])
    only = sys.argv[2:]
    for b in g["BUGS"]:
        if only and b["id"] not in only: continue
        subprocess.check_call(["git", "-C", R, "checkout", "-q", "--", "."])
        for f, old, new in b["edits"]:
            p = os.path.join(R, f); s = open(p).read()
            if s.count(old) != 1: print(b["id"], f, "old text occurs", s.count(old), "times"); sys.exit(1)
            open(p, "w").write(s.replace(old, new))
        d = os.path.join("/verif/seeded", b["id"]); os.makedirs(d, exist_ok=True)
        diff = subprocess.check_output(["git", "-C", R, "diff"]).decode()
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        if "sh" in b: open(d + "/demo.sh", "w").write(b["sh"])
        else:
            libs = " ".join("$B/%s/libmqt-core-%s.a" % (DIRS.get(l, l), l) for l in LIBORDER)
            open(d + "/demo.sh", "w").write(SH % libs)
            open(d + "/demo.cpp", "w").write(g.get("PRE", "") + b["demo"])
        for n, t in b.get("files", {}).items(): open(os.path.join(d, n), "w").write(t)
        print("wrote", b["id"])
main()
