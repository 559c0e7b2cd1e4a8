#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from techniques import TECHNIQUE, NOTE, NOT_APPLICABLE  # noqa: E402

ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if not os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "The check is not built yet.")})
        continue
    checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
                   "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                   "evidence_file": "evidence/%s.json" % i, "technique": TECHNIQUE[i], "level": "exploration",
                   "level_note": NOTE.get(i, "Generated cases against an explicit oracle; what the generators cannot reach is listed in DESIGN.md.")})
m = {"version": 1, "setup_cmd": "python3 -m gmg.build",
     "hooks": {"guard": "none", "enable": "No hooks: the checks compile /repo's sources as they are, with sanitizers.", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Findings and repairs are listed in known_findings.txt. Every check takes --replay FILE and honours VERIF_SEED, GMG_SCALE, GMG_JOBS and GMG_BUDGET."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
