#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in ids:
    if p in CHECKS:
        c = CHECKS[p]
        checks.append({
            "property": p,
            "quick_cmd": "python3 run.py %s quick" % p,
            "thorough_cmd": "python3 run.py %s thorough" % p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": c.get("technique", "property-based testing: generated inputs and histories against an exact reference oracle, with shrinking; coverage-guided fuzzing in the thorough tier"),
            "level": "exploration",
            "level_note": c.get("note", "No violation in the stated number of generated cases; sampled, not exhaustive. Trusts GMP, the compiler, and the oracle in harness/%s." % c["src"]),
        })
    else:
        na.append({"property": p, "reason": "no check has been built for this property yet"})
json.dump({"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo are needed: the drivers compile /repo's headers and sources directly."},
          open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
