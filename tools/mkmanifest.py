# writes /verif/MANIFEST.json from scenarios.py and properties.jsonl
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."); sys.path.insert(0, V)
import scenarios
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks, na = [], []
for i in ids:
    p = scenarios.PROPS.get(i)
    if not p:
        na.append({"property": i, "reason": scenarios.NOT_APPLICABLE.get(i, "no check has been built for it yet")}); continue
    checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i, "evidence_file": "evidence/%s.json" % i,
        "technique": p.get("technique", "symbolic execution of the library's LLVM IR; every assertion decided by z3 over all values within the bounds; counterexamples replayed natively"),
        "level": "model_checking",
        "level_note": "Bounded: " + p["bounds"] + " " + ("Outside: " + p["outside"] + " " if p.get("outside") else "") + "Trusts the symbolic executor (cross-checked by replaying witnesses against a native build), clang 18 and z3; " + p.get("model", "doubles are modelled as real numbers, so rounding is outside the claim.")})
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
    "notes": "No hooks are needed in /repo. DESIGN.md describes the engine, bounds and what was found; known-findings.json lists fixed defects."}, open(V + "/MANIFEST.json", "w"), indent=1)
