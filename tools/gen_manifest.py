#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks/specs.py."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R + "/checks")
sys.dont_write_bytecode = True
import specs
NA = {}
checks, na = [], []
for l in open(R + "/properties.jsonl"):
    p = json.loads(l)["id"]
    s = specs.SPECS.get(p)
    if s and s["inst"]:
        checks.append({
            "property": p, "quick_cmd": "./run_check %s" % p, "thorough_cmd": "./run_check %s --tier thorough" % p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": "symbolic execution of the code's LLVM bitcode, every path decided by an SMT solver (Z3), violations replayed natively",
            "level": "model_checking",
            "level_note": "Bounded: %s. Not covered: %s. Trusts the engine in /verif/engine, the runtime models in /verif/rt and Z3; sampled paths and every violation are re-run against natively compiled code." % (s["bounds"], s["outside"] or "anything beyond these bounds"),
        })
    else:
        na.append({"property": p, "reason": NA.get(p, "not decided by a check yet")})
json.dump({"version": 1, "setup_cmd": "./run_check --setup", "checks": checks, "not_applicable": na}, open(R + "/MANIFEST.json", "w"), indent=1)
open(R + "/MANIFEST.json", "a").write("\n")
