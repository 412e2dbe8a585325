#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py, and checks them against the checks that exist."""
import json, os, re, glob, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE + "/tools")
from props import PROPS, NOT_APPLICABLE

have = set()
for f in glob.glob(HERE + "/checks/*.cpp"):
    have |= set(re.findall(r"^PROPERTY\((\w+),", open(f).read(), re.M))
ids = [p["id"] for p in PROPS]
assert len(ids) == len(set(ids)), "duplicate id"
na = {n["property"] for n in NOT_APPLICABLE}
for i in ids:
    if i not in have and i not in na:
        print("no check for", i)
for i in sorted(have - set(ids)):
    print("no property for", i)

with open(HERE + "/properties.jsonl", "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        q = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mechanism"]],
                         "observe_at": p.get("observe_at", []), "hook_needed": None}}
        f.write(json.dumps(q) + "\n")

LEVEL = "exploration"
checks = []
for p in PROPS:
    if p["id"] in na or p["id"] not in have:
        continue
    checks.append({"property": p["id"], "quick_cmd": f"python3 run.py {p['id']} quick", "thorough_cmd": f"python3 run.py {p['id']} thorough",
                   "technique": "property-based testing: " + p["technique"], "level": LEVEL,
                   "level_note": p.get("level_note", "random search with shrinking; the quantifier is sampled, not exhausted")})
m = {"version": 1, "setup_cmd": "python3 run.py --build", "checks": checks,
     "hooks": {"guard": "FAST_MSER_VERIF", "enable": "none are needed: the checks compile /repo's sources as they are and no hook is committed", "source_commits": []},
     "not_applicable": NOT_APPLICABLE}
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
open(HERE + "/MANIFEST.json", "a").write("\n")
