#!/usr/bin/env python3
"""fills the findings and planted bug tables of DESIGN.md (between markers)"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
find = json.load(open(V + "/known_findings.json"))["findings"]
by = {}
for f in find:
    by.setdefault(f["property"], []).append(f)
t = ""
for p in sorted(by):
    t += f"* **{p}** " + "; ".join(f"{f['what'].split(' ', 3)[3] if f['status'] == 'fixed' else f['what']} (`{f.get('commit', 'open')}`)" for f in by[p]) + ".\n"
res = {}
if os.path.exists(V + "/tools/seed_results.json"):
    res = json.load(open(V + "/tools/seed_results.json"))
s = "| bug | property | breaks | needs | quick check |\n|---|---|---|---|---|\n"
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    s += f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {res.get(d, '?')} |\n"
doc = open(V + "/DESIGN.md").read()
for tag, txt in (("FINDINGS", t), ("SEEDS", s)):
    blk = f"<!-- {tag} -->\n{txt}<!-- /{tag} -->\n"
    if f"@{tag}@" in doc:
        doc = doc.replace(f"@{tag}@\n", blk)
    else:
        doc = re.sub(f"<!-- {tag} -->.*?<!-- /{tag} -->\n", lambda _: blk, doc, flags=re.S)
open(V + "/DESIGN.md", "w").write(doc)
