#!/usr/bin/env python3
"""rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| change | check | what it breaks |", "|---|---|---|"]
for d in sorted(os.listdir(root + "/seeded")):
    m = json.load(open(f"{root}/seeded/{d}/meta.json"))
    w = m["what_it_breaks"].replace("|", "/").split("\n")[0]
    rows.append(f"| {d} | {m['property']} | {w} |")
p = root + "/DESIGN.md"
s = open(p).read()
t = "<!-- catch table -->\n" + "\n".join(rows) + "\n<!-- end -->"
s = s.replace("CATCHTABLE", t) if "CATCHTABLE" in s else re.sub(r"<!-- catch table -->.*?<!-- end -->", lambda m: t, s, flags=re.S)
open(p, "w").write(s)
