#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md from seeded-src and the last mkseed output given as files."""
import os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = {}
for fn in sys.argv[1:]:
    for l in open(fn):
        m = re.match(r"(\S+) ok .*\| caught by: ([C0-9 ]+)", l)
        if m: caught[m.group(1)] = m.group(2).split()
print("| bug | what it breaks | needs | reported by |\n|---|---|---|---|")
for f in sorted(os.listdir(os.path.join(V, "seeded-src"))):
    h = dict(l.split(": ", 1) for l in open(os.path.join(V, "seeded-src", f)).read().split("\n@@ ")[0].strip().split("\n"))
    i = f[:-4]
    print("| %s | %s | %s | %s |" % (i, h["breaks"], h["needs"], " ".join(caught.get(i, ["?"]))))
