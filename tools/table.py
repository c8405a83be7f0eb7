#!/usr/bin/env python3
"""Rewrites the table of planted changes at the end of DESIGN.md from seeded/*/meta.json and tools/caught.json (written by tools/plant.py check)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(f"{V}/tools/caught.json")) if os.path.exists(f"{V}/tools/caught.json") else {}
rows = ["| change | property | needs | caught by |", "|---|---|---|---|"]
for i in sorted(os.listdir(f"{V}/seeded")):
    m = json.load(open(f"{V}/seeded/{i}/meta.json"))
    needs = " ".join(m["needs"].split()).replace("|", "/")
    rows.append(f"| {i} | {m['property']} | {needs if len(needs) < 150 else needs[:147] + '...'} | {', '.join(caught.get(i, [])) or '?'} |")
s = open(f"{V}/DESIGN.md").read()
mark = "<!-- planted -->"
s = s.split(mark)[0].rstrip() + f"\n\n{mark}\n" + "\n".join(rows) + "\n"
open(f"{V}/DESIGN.md", "w").write(s)
