#!/usr/bin/env python3
"""DESIGN.md = tools/design_head.md + table of planted bugs + tools/design_tail.md"""
import json, os, glob
os.chdir("/verif")
caught = {}
if os.path.exists("tools/seeded_results.txt"):
    for l in open("tools/seeded_results.txt"):
        w = l.split()
        if len(w) >= 3 and w[2].startswith("rc="):
            caught[w[0]] = (w[1], w[2])
rows = []
for d in sorted(glob.glob("seeded/*/meta.json")):
    i = d.split("/")[1]
    m = json.load(open(d))
    c = caught.get(i)
    c = "not run yet" if c is None else f"{c[0]} quick" if c[1] == "rc=1" else "MISSED"
    rows.append(f"| {i} | {m['property']} | {m['needs'].strip()} | {c} |")
t = open("tools/design_head.md").read()
t += "| change | property | needs | caught by |\n|---|---|---|---|\n" + "\n".join(rows) + "\n"
t += open("tools/design_tail.md").read()
open("DESIGN.md", "w").write(t)
print(len(rows), "rows")
