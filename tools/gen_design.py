#!/usr/bin/env python3
"""Rewrites the table of planted bugs of DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
rows = ["| id | property | what it breaks | needs |", "|---|---|---|---|"]
for d in sorted(glob.glob("seeded/*")):
    m = json.load(open(d + "/meta.json"))
    rows.append(f"| {os.path.basename(d)} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
s = open("DESIGN.md").read()
b, e = "<!-- seeded:begin -->", "<!-- seeded:end -->"
i, j = s.index(b), s.index(e)
open("DESIGN.md", "w").write(s[:i] + b + "\n" + "\n".join(rows) + "\n" + s[j:])
