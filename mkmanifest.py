#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py."""
import json
import os

from checks import CHECKS, NOT_APPLICABLE

ROOT = os.path.dirname(os.path.abspath(__file__))
checks = []
for p in sorted(CHECKS):
    c = CHECKS[p]
    checks.append({
        "property": p,
        "quick_cmd": "python3 check.py " + p,
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": c["technique"],
        "level": c.get("level", "model_checking"),
        "level_note": c["note"],
    })
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": checks,
    "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NOT_APPLICABLE.items())],
    "notes": "TLA+ specifications in spec/ (checked with TLC) print tables and vectors that the Rust harness "
             "in harness/ interprets against the real crates; no hooks are needed in /repo. See DESIGN.md.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
