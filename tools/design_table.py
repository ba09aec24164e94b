#!/usr/bin/env python3
"""Fills the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, glob, os, re
os.chdir(os.path.join(os.path.dirname(__file__), ".."))
rows = ["<!-- seeds -->", "| id | caught by | what it breaks |", "|---|---|---|"]
for d in sorted(glob.glob("seeded/*/")):
    m = json.load(open(d + "meta.json"))
    rows.append(f"| {os.path.basename(d[:-1])} | {m['property']} | {m['what_it_breaks']} |")
rows.append("<!-- end seeds -->")
s = open("DESIGN.md").read()
t = "\n".join(rows)
if "SEEDTABLE" in s:
    s = s.replace("SEEDTABLE", t)
else:
    s = re.sub(r"<!-- seeds -->.*<!-- end seeds -->", lambda _: t, s, flags=re.S)
open("DESIGN.md", "w").write(s)
