#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the registered checks."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import checks  # noqa: E402
from vlib.meta import META  # noqa: E402

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 -c 'import vlib.checks'", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        t, level, note = META[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 run.py %s quick" % i, "thorough_cmd": "python3 run.py %s thorough" % i, "evidence_file": "evidence/%s.json" % i, "technique": t, "level": level, "level_note": note})
    else:
        m["not_applicable"].append({"property": i, "reason": "check under construction"})
m["notes"] = "No hooks in /repo: everything is observed through the public API, interposed libc calls and sanitizers. Commits in /repo are fix: commits only, listed in KNOWN_FINDINGS.txt."
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
