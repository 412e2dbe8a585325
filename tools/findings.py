#!/usr/bin/env python3
"""Writes known-findings.json: the genuine defects that were repaired (by commit subject) and those that are recorded."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = dict((s, h) for h, s in (l.split(" ", 1) for l in subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines()))
exec(open(HERE + "/tools/findings_data.py").read())
res = []
for prop, subject in FIXED:
    full = "fix: " + subject
    res.append({"property": prop, "status": "fixed", "commit": log[full], "what": subject, "record": f"fixed: property={prop} {log[full]} {subject}"})
for k in FOUND:
    res.append({"property": k[0], "status": "known", "key": k[1], "what": k[2]})
seen = {r["commit"] for r in res if r["status"] == "fixed"}
for s, h in log.items():
    if s.startswith("fix:") and h not in seen:
        print("not recorded:", h, s)
json.dump({"findings": res}, open(HERE + "/known-findings.json", "w"), indent=1)
open(HERE + "/known-findings.json", "a").write("\n")
