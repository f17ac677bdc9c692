#!/usr/bin/env python3
"""DESIGN.md = design/*.md with tables made from seeded/, tools/detected.json and known-findings.json."""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
det = json.load(open(V + "/tools/detected.json"))
rows = ["| bug | property | needs | breaks | caught by |", "|---|---|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i, m = d.split("/")[-2], json.load(open(d))
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {', '.join(det.get(i, [])) or 'none'} |")
k = json.load(open(V + "/known-findings.json"))
fixed = []
for f in k["fixed"]:
    p, c, w = f.split("property=")[1].split(" ", 2)
    fixed.append(f"* **{p}** ({c}) {w}")
find = [f"* **{f['property']}** `{f['key']}`: {f['what']}" for f in k["findings"]]
s = "\n".join(open(f).read().rstrip("\n") for f in sorted(glob.glob(V + "/design/*.md"))) + "\n"
s = s.replace("@SEEDS@", "\n".join(rows)).replace("@FIXED@", "\n".join(fixed)).replace("@FINDINGS@", "\n".join(find))
open(V + "/DESIGN.md", "w").write(s)
print(len(s))
