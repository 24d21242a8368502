#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/table.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from table import PROPS, NOT_APPLICABLE, HOOKS  # noqa
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in PROPS:
        continue
    P = PROPS[i]
    c = {
        "property": i,
        "quick_cmd": "python3 check.py %s --tier quick" % i,
        "technique": "symbolic execution of the real code's LLVM IR, decided by SMT (z3, cvc5)",
        "level": "other",
        "level_note": "Holds for every value within the bounds; bounded symbolic checking, not a proof. Bounds: " + "; ".join(P["bounds"]) + ". Trusts: rustc's IR, the symbolic engine in /verif/engine, z3/cvc5; violations are confirmed by a native replay.",
    }
    c["thorough_cmd"] = "python3 check.py %s --tier thorough" % i
    checks.append(c)
na = [{"property": i, "reason": NOT_APPLICABLE.get(i, "check not built yet")} for i in ids if i not in PROPS]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "known findings and fixed defects: known_findings.txt; design: DESIGN.md"}
if HOOKS:
    m["hooks"] = HOOKS
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
