#!/usr/bin/env python3
"""rewrites DESIGN.md's table of planted bugs"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| id | needs | breaks | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir(f"{V}/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json")); rows.append(f"| {d} | {m['needs']} | {m['what_it_breaks']} | {m['property']} |")
s = open(f"{V}/DESIGN.md").read()
s = re.sub(r"(<!-- seeds -->\n).*?(<!-- /seeds -->)", lambda m: m[1] + "\n".join(rows) + "\n" + m[2], s, flags=re.S)
open(f"{V}/DESIGN.md", "w").write(s)
