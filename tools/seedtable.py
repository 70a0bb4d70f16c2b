#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = {}
p = os.path.join(V, "seeded", "missed.txt")
if os.path.exists(p):
    missed = dict(l.rstrip("\n").split(" ", 1) for l in open(p))
rows = []
for f in glob.glob(V + "/seeded/*/meta.json"):
    m = json.load(open(f))
    i = os.path.basename(os.path.dirname(f))
    rows.append((m["property"], i, m["what_it_breaks"].split(". ")[0].rstrip("."), missed.get(i, m["property"])))
t = "| id | property | what it breaks | caught by |\n|---|---|---|---|\n" + "".join(
    "| %s | %s | %s | %s |\n" % (i, p, w.replace("|", "/"), c) for p, i, w, c in sorted(rows))
d = open(V + "/DESIGN.md").read()
a, b = d.index("<!-- seeds -->") + len("<!-- seeds -->\n"), d.index("<!-- /seeds -->")
open(V + "/DESIGN.md", "w").write(d[:a] + t + d[b:])
