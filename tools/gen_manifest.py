#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vlib import props

pl = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in pl:
    i = p["id"]
    if i in props.CHECKS:
        tech, note = props.describe(i)
        checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py " + i + " thorough", "evidence_file": "evidence/%s.json" % i,
                       "technique": tech, "level": props.CHECKS[i][1], "level_note": note})
    else:
        na.append({"property": i, "reason": props.NOT_APPLICABLE.get(i, "no check yet: the specification module for it is under construction")})
m = {"version": 1, "setup_cmd": "cd harness && HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod go build -o /dev/null .", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "verif", "enable": "no hooks are needed: the checks use the public API of /repo only", "source_commits": []},
     "notes": "Specification in TLA+ (spec/), checked with TLC; Go harness in harness/ replays TLC's behaviours against /repo's working tree; see DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks;", len(na), "without")
