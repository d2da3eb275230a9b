#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property in properties.jsonl that engine/specs.go has explorations for."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(root + "/engine/specs.go").read()
ids = [json.loads(l)["id"] for l in open(root + "/properties.jsonl")]
NOTE = ("Bounded: the real code is executed symbolically from its SSA form, every input within the stated bounds is covered "
        "(decided by a solver query per exploration), assertions are decided by z3; counterexamples are replayed natively before "
        "they are reported. Inputs beyond the bounds are outside the claim; library models (time, fmt) are trusted and compared "
        "with the library on sampled paths.")
checks = []
for i in ids:
    if not re.search(r'"%s"' % i, src):
        continue
    checks.append({
        "property": i,
        "quick_cmd": "./check.sh %s quick" % i,
        "thorough_cmd": "./check.sh %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "symbolic execution of the Go SSA of the real code, assertions decided by an SMT solver (z3)",
        "level": "model_checking",
        "level_note": NOTE,
    })
na = []
for i in ids:
    if i not in [c["property"] for c in checks]:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./build.sh", "checks": checks, "not_applicable": na}
open(root + "/MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
