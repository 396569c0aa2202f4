#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and checks.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import checks as C
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "./symex/build.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in C.CHECKS:
        c = C.CHECKS[i]
        m["checks"].append({
            "property": i,
            "quick_cmd": "python3 run_check.py %s quick" % i,
            "thorough_cmd": "python3 run_check.py %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "symbolic execution of the compiled code (LLVM IR) with an SMT solver" + (", symbolic schedules" if c.get("threads") else ""),
            "level": "model_checking",
            "level_note": ("Exhaustive within bounds: " + c.get("bounds", "") + ". Outside: " + c.get("outside", "") + "."),
        })
    else:
        m["not_applicable"].append({"property": i, "reason": C.NOT_APPLICABLE.get(i, "no check yet")})
if not m["not_applicable"]:
    del m["not_applicable"]
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
open(H + "/MANIFEST.json", "a").write("\n")
