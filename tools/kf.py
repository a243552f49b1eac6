#!/usr/bin/env python3
"""kf.py PROP COMMIT...: records fix commits of /repo in known-findings.json."""
import json, os, subprocess, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known-findings.json")
k = json.load(open(p))
for c in sys.argv[2:]:
    h = subprocess.run(["git", "-C", "/repo", "log", "-1", "--format=%h %s", c], capture_output=True, text=True, check=True).stdout.strip()
    c, what = h.split(" ", 1)
    what = what.removeprefix("fix: ")
    if not any(x.get("commit") == c and x["property"] == sys.argv[1] for x in k):
        k.append({"property": sys.argv[1], "status": "fixed", "commit": c, "what": what, "note": "fixed: property=%s %s %s" % (sys.argv[1], c, what)})
json.dump(k, open(p, "w"), indent=1, ensure_ascii=False)
