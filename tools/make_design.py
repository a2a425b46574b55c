#!/usr/bin/env python3
"""Writes DESIGN.md from tools/DESIGN.tmpl.md, tools/design_props.py, known_findings.json and seeded/*/meta.json."""
import json
from pathlib import Path
from design_props import D

V = Path(__file__).resolve().parent.parent
props = [json.loads(x) for x in open(V / "properties.jsonl")]
caught = json.load(open(V / "tools" / "caught.json"))
t = (V / "tools" / "DESIGN.tmpl.md").read_text()
rows = []
for p in props:
    spec, code, why = D[p["id"]]
    rows.append(f"### {p['id']} {p['title']}\n\n* Specified: {spec}\n* Bound to the code: {code}\n* Reach: {why}\n")
t = t.replace("PROPTABLE", "\n".join(rows))
fx = json.load(open(V / "known_findings.json"))["fixed"]
t = t.replace("FIXTABLE", "\n".join("* " + x for x in fx))
rows = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted((V / "seeded").iterdir()):
    m = json.load(open(d / "meta.json"))
    rows.append(f"| {d.name} | {m['property']} | {m['needs']} | {caught.get(d.name, '?')} |")
t = t.replace("SEEDTABLE", "\n".join(rows))
(V / "DESIGN.md").write_text(t)
