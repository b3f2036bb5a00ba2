#!/usr/bin/env python3
"""Rewrites section 2 onwards of DESIGN.md from tools/claims.py, tools/design_notes.py and the evidence/seeded files."""
import json, os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
CLAIMS = {}
exec(open(V + "/tools/claims.py").read())
NOTES = {}
exec(open(V + "/tools/design_notes.py").read())
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
text = open(V + "/DESIGN.md").read()
head = text[:text.index("## 2. Properties")]
out = ["## 2. Properties\n"]
seeds = {}
for s in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{s}/meta.json"))
    seeds.setdefault(m["property"], []).append((s, m))
for p in props:
    i = p["id"]
    out.append(f"### {i} {p['title']}\n")
    if i in CLAIMS:
        out.append("*What decides it.* " + CLAIMS[i] + "\n")
    n = NOTES.get(i)
    if n:
        out.append(n.strip() + "\n")
    for s, m in seeds.get(i, []):
        out.append(f"* seeded `{s}`: {m['what_it_breaks'].strip().rstrip('.')}. Needs: {m['needs'].strip().rstrip('.')}. {NOTES.get('seed:' + s, 'Caught by a failed obligation and by the harness with a concrete input.')}")
    out.append("")
out.append(NOTES["tail"].strip() + "\n")
open(V + "/DESIGN.md", "w").write(head + "\n".join(out))
