#!/usr/bin/env python3
"""writes MANIFEST.json from the property list and the harness table"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
import table
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in table.T and i not in table.NA:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": "symbolic execution of the compiled C/C++ (LLVM IR) with z3 deciding every branch and assertion; counterexamples replayed natively",
                       "level": "model_checking", "level_note": table.NOTE.get(i, "bounded: every input within the harness bounds, see evidence and DESIGN.md")})
    else:
        na.append({"property": i, "reason": table.NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "bash engine/build.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
