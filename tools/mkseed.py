#!/usr/bin/env python3
"""mkseed.py SPEC.py - development helper: writes seeded/<id>/ from a list of edits.

SPEC defines SEEDS = [dict(id, prop, needs, breaks, edits=[(file, old, new)], files={name: text}, src=[...], flags="")]
"""
import os, subprocess, sys, json, shutil
spec = {}
exec(open(sys.argv[1]).read(), spec)
only = sys.argv[2:]
W = "/tmp/seed/w"
DEMO = '''#!/bin/bash
# Exit 0 when the behaviour is right, nonzero otherwise.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cd "${REPO:-$PWD}" || exit 1
g++ -std=c++11 -O0 -g %(flags)s -pthread -Iinclude -Isrc -DCPPDAP_JSON_%(json)s=1 "$here/demo.cpp" %(src)s -o "$tmp/demo" %(libs)s || exit 3
timeout %(timeout)s "$tmp/demo"
'''
for s in spec["SEEDS"]:
    if only and s["id"] not in only: continue
    subprocess.check_call("git fetch -q && git reset -q --hard origin/HEAD && git clean -qfd", shell=True, cwd=W)
    for f, old, new in s["edits"]:
        p = os.path.join(W, f); t = open(p).read()
        assert t.count(old) == 1, (s["id"], f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    d = "/verif/seeded/" + s["id"]
    os.makedirs(d, exist_ok=True)
    diff = subprocess.check_output(["git", "diff"], cwd=W).decode()
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.cpp", "w").write(s["demo"])
    open(d + "/demo.sh", "w").write(DEMO % {"flags": s.get("flags", ""), "src": " ".join(s.get("src", [])), "libs": s.get("libs", ""), "timeout": s.get("timeout", 60), "json": s.get("json", "NLOHMANN")})
    os.chmod(d + "/demo.sh", 0o755)
    # demonstration on both trees
    r1 = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    r2 = subprocess.run(["bash", d + "/demo.sh"], cwd=W, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    print(s["id"], "clean", r1.returncode, "patched", r2.returncode, "OK" if r1.returncode == 0 and r2.returncode not in (0, 3) else "BAD " + (r1.stderr + r2.stderr).decode()[-1500:])
