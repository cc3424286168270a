#!/usr/bin/env python3
"""Writes DESIGN.md from design/*.md, properties.jsonl, checks.json, known_findings.txt and design/matrix.txt."""
import json, os, re
V = "/verif"
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks = json.load(open(V + "/tools/checks.json"))
det = {}
cur = None
for l in open(V + "/design/properties.md"):
    m = re.match(r"## (C\d\d)", l)
    if m:
        cur = m.group(1); det[cur] = ""
    elif cur:
        det[cur] += l
out = open(V + "/design/head.md").read().rstrip() + "\n\n## Properties\n\n"
for p in props:
    i = p["id"]
    out += f"### {i} — {p['title']}\n\n"
    if i in checks:
        out += f"*Deciding method:* {checks[i]['technique']}. {checks[i]['note']}\n\n"
    out += det.get(i, "").strip() + "\n\n"
out += open(V + "/design/tail.md").read().rstrip() + "\n"
m = V + "/design/matrix.txt"
if os.path.exists(m):
    rows = [l.rstrip("\n").split("\t") for l in open(m) if l.strip()]
    out += "\n## Planted bugs and the checks that catch them\n\n" + open(V + "/design/matrix_head.md").read().strip() + "\n\n| bug | property | what it needs | caught by (quick) |\n|---|---|---|---|\n"
    for r in rows:
        out += "| " + " | ".join(r) + " |\n"
open(V + "/DESIGN.md", "w").write(out)
