#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist in sa/."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from textwrap import dedent
exec(open(os.path.join(V, "meta/claims.py")).read())
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks = []; na = []
for p in props:
    i = p["id"]
    if i in CLAIMS and os.path.exists(os.path.join(V, "sa", i.lower() + ".py")):
        t, n = CLAIMS[i]
        checks.append({"property": i, "quick_cmd": "python3 sa/runner.py %s quick" % i, "thorough_cmd": "python3 sa/runner.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": t, "level": "other", "level_note": " ".join(n.split())})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "make -C tool", "checks": checks, "not_applicable": na,
           "notes": "Static analysis only: every check parses /repo's current source with a clang-based exporter (tool/export.cpp) and decides its rules on the resolved program; nothing of RE-flex is executed."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
