#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (missed ones are listed in tools/missed.txt)."""
import json, os, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = {}
m = os.path.join(root, "tools", "missed.txt")
if os.path.exists(m):
    for l in open(m):
        if l.strip():
            k, _, v = l.strip().partition(" ")
            missed[k] = v
rows = []
for f in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    d = json.load(open(f))
    i = os.path.basename(os.path.dirname(f))
    by = d["property"] if i not in missed else f"not caught by {d['property']}: {missed[i]}"
    rows.append(f"| {i} | {by} | {d['needs']} |")
p = os.path.join(root, "DESIGN.md")
s = open(p).read()
k = s.index("| bug | caught by | needs |")
open(p, "w").write(s[:k] + "| bug | caught by | needs |\n|---|---|---|\n" + "\n".join(rows) + "\n")
