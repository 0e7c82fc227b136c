#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | reported by | needs |", "| --- | --- | --- |"]
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    rows.append(f"| {os.path.basename(os.path.dirname(d))} | {m['property']} | {m['needs']} |")
p = V + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"@@TABLE@@\n|\| planted bug \|.*?\n(?!\|)", lambda _: "\n".join(rows) + "\n\n", s, count=1, flags=re.S)
open(p, "w").write(s)
