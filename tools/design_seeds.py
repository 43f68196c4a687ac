#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(root + "/seeded")):
    m = json.load(open(f"{root}/seeded/{d}/meta.json"))
    rows.append((m["property"], d, m["needs"].replace("|", "/")))
rows.sort()
mark = "<!-- table: tools/design_seeds.py -->\n"
s = open(root + "/DESIGN.md").read()
head = s[: s.index(mark)] + mark
head += "\n| property | bug | needs |\n|---|---|---|\n"
head += "".join(f"| {p} | `{d}` | {n} |\n" for p, d, n in rows)
open(root + "/DESIGN.md", "w").write(head)
