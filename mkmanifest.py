#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py."""
import json
from plan import PROPS, NOT_APPLICABLE
checks = []
for p in sorted(PROPS):
    s = PROPS[p]
    checks.append({
        "property": p,
        "quick_cmd": "python3 run.py " + p,
        "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": "symbolic execution of the LLVM IR of the real code, branches and assertions decided by z3 within stated bounds; counterexamples replayed natively",
        "level": "model_checking",
        "level_note": "Bounded: " + (s["bounds"][0] if isinstance(s["bounds"], list) else s["bounds"]) + ". Trusts rustc's IR, the executor sx and z3; outside the bounds nothing is claimed." + ((" Outside: " + s["outside"]) if s.get("outside") else ""),
    })
json.dump({"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks,
           "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NOT_APPLICABLE.items())],
           "notes": "One engine (sx) and eight harness crates (hx/*), all compiled from /repo's working tree on every run. No hooks in /repo."},
          open("MANIFEST.json", "w"), indent=1)
