#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md (between the two markers there)."""
import json, glob, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for p in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    d = json.load(open(p))
    rows.append((d["property"], os.path.basename(os.path.dirname(p)), d["needs"].rstrip("."), d["what_it_breaks"].rstrip(".")))
rows.sort()
log = {}
try:
    for l in open(os.path.join(HERE, "tools", "caught.txt")):
        if l.strip() and not l.startswith("#"):
            i, rest = l.split(None, 1)
            log[i] = rest.strip()
except OSError:
    pass
t = "| Property | Bug | Needs | Breaks | Caught by (quick) |\n|---|---|---|---|---|\n"
for p, i, n, w in rows:
    t += f"| {p} | {i} | {n} | {w} | {log.get(i, '?')} |\n"
path = os.path.join(HERE, "DESIGN.md")
s = open(path).read()
a, b = "<!-- planted -->\n", "<!-- /planted -->"
head, rest = s.split(a)
tail = rest.split(b)[1]
open(path, "w").write(head + a + t + b + tail)
