#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = root + "/DESIGN.md"
head = "## Planted bugs\n"
t = open(p).read()
t = t[:t.index(head)] if head in t else t.rstrip("\n") + "\n\n"
rows = []
for d in glob.glob(root + "/seeded/*/meta.json"):
    m = json.load(open(d))
    rows.append("| %s | %s | %s | %s |\n" % (m["property"], os.path.basename(os.path.dirname(d)), m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/")))
open(p, "w").write(t + head + """
Each is caught by the quick check of the property it is listed under (`tools/plant.py` makes sure of it: build, stable tests, demo on both trees, check).

| check | bug | needs | what it breaks |
|---|---|---|---|
""" + "".join(sorted(rows)))
