#!/usr/bin/env python3
"""Rewrites the harness table of DESIGN.md (between its two markers) from the directives in harness/."""
import re, glob, os
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
rows = {}
for f in sorted(glob.glob("harness/core/*.go") + glob.glob("harness/top/*.go")):
    blk, pkg = {}, f.split("/")[1]
    for l in open(f).read().split("\n"):
        if l.startswith("//verif:"):
            k, _, v = l[8:].partition(" ")
            blk[k] = v
        elif l.startswith("func ") and "property" in blk:
            n = re.match(r"func (\w+)", l).group(1)
            for p in blk["property"].split():
                mode = "all schedules" if "full" in blk.get("mode", "") else "inputs"
                rows.setdefault(p, []).append((pkg + "." + n, mode, blk.get("bounds", ""), blk.get("tier", "")))
            blk = {}
        elif not l.startswith("//"):
            blk = {}
out = ["| property | harness | symbolic | bounds |", "|---|---|---|---|"]
for p in sorted(rows):
    for n, mode, b, tier in rows[p]:
        out.append("| %s | %s%s | %s | %s |" % (p, n, " (thorough only)" if tier else "", mode, b.replace("|", "/")))
d = open("DESIGN.md").read()
a, z = "<!-- harness table -->\n", "<!-- end of harness table -->"
i, j = d.index(a) + len(a), d.index(z)
open("DESIGN.md", "w").write(d[:i] + "\n".join(out) + "\n" + d[j:])
