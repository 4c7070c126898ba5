#!/usr/bin/env python3
"""Rewrites the table of planted bugs of DESIGN.md from seeded/*/meta.json and the harnesses named in CAUGHT."""
import json, glob, os
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
CAUGHT = dict(l.split(None, 1) for l in open("tools/caught.txt").read().strip().split("\n"))
out = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob("seeded/*/meta.json")):
    i = f.split("/")[1]
    d = json.load(open(f))
    out.append("| %s | %s | %s | %s |" % (i, d["property"], d["needs"].replace("|", "/"), CAUGHT.get(i, "**not caught**")))
d = open("DESIGN.md").read()
a, z = "<!-- planted table -->\n", "<!-- end of planted table -->"
i, j = d.index(a) + len(a), d.index(z)
open("DESIGN.md", "w").write(d[:i] + "\n".join(out) + "\n" + d[j:])
