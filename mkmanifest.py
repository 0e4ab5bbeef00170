#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os
from checks import CHECKS, NOT_APPLICABLE
V = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
na = []
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        thorough = any(part.get("thorough") for part in c["parts"])
        d = {"property": p, "quick_cmd": "python3 run.py %s --tier quick" % p}
        d["thorough_cmd"] = "python3 run.py %s --tier thorough" % p
        d["technique"] = "symbolic execution of the compiled code's LLVM IR with z3 (all paths within bounds)"
        d["level"] = "model_checking"
        d["level_note"] = ("Every input within the bounds is decided on the IR rustc emits for the current source; counterexamples are replayed natively. Bounds per entry are in the evidence. Outside: "
                           + c["outside"] + ". Trusts rustc/LLVM up to the emitted IR, the executor's IR semantics (sampled paths are replayed natively on every run) and z3"
                           + ("; " + "; ".join(c["assumptions"]) if c.get("assumptions") else "") + ".")
        checks.append(d)
    else:
        na.append({"property": p, "reason": NOT_APPLICABLE.get(p, "check under construction")})
m = {"version": 1, "setup_cmd": "engine/build.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: harnesses use the public API. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
