#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below; properties without a check file are not applicable (yet)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = json.load(open(os.path.join(V, "tools", "checks.json")))
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    i = json.loads(line)["id"]
    if i in T and os.path.exists(os.path.join(V, "checks", i + ".py")):
        checks.append({"property": i, "quick_cmd": "python3 checks/%s.py" % i, "thorough_cmd": "env VERIF_TIER=thorough python3 checks/%s.py" % i,
                       "evidence_file": "evidence/%s.json" % i, **T[i]})
    else:
        na.append({"property": i, "reason": "its monitor is not built yet"})
json.dump({"version": 1, "setup_cmd": "python3 -m compileall -q vlib checks", "checks": checks, "not_applicable": na,
           "notes": "Every check compiles what it needs from /repo/src into /verif/build (ignored by git). There are no hooks in /repo: "
                    "the monitors use public interfaces, preloaded stand-ins for libc calls, ptrace and the sanitizers' builds."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
