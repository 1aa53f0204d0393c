#!/usr/bin/env python3
"""Assemble DESIGN.md from docs/*.md and the last quick evidence of every property (a development aid)."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda p: open(os.path.join(R, p)).read() if os.path.exists(os.path.join(R, p)) else ""
out = [rd("docs/design_head.md"), "\n## Per property\n"]
claimed = json.load(open(f"{R}/tools/claimed.json"))
for l in open(f"{R}/properties.jsonl"):
    p = json.loads(l); i = p["id"]
    out.append(f"\n### {i} {p['title']}\n")
    if i not in claimed:
        out.append("Not claimed: see not_applicable in MANIFEST.json.\n"); continue
    out.append(f"Why tests cannot settle it: {p['why_tests_cant']}.\n\nDecided by {claimed[i]['technique'].split(': ',1)[-1]}. {claimed[i]['note']}\n")
    f = f"{R}/evidence/{i}.json"
    if os.path.exists(f):
        c = json.load(open(f))["coverage"]
        out.append("\n| suite | bounds of the quick check | executions | time |\n|---|---|---|---|")
        for n, s in sorted(c.get("suites", {}).items()):
            t = s.get("seconds", s.get("secs", s.get("wall_s", "")))
            b = str(s.get('bounds', '')).replace('|', '/')
            out.append(f"| {n} | {b} | {s.get('executions','')} | {t if t=='' else f'{float(t):.0f} s'} |")
        out.append("")
import glob
rows = []
for m in sorted(glob.glob(f"{R}/seeded/*/meta.json")):
    d = json.load(open(m)); rows.append(f"| {os.path.basename(os.path.dirname(m))} | {d['property']} | {d['needs']}: {d['what_it_breaks']} | `check.sh {d['property']} quick` |")
out.append(rd("docs/design_tail.md").replace("@SEEDS@", "\n".join(rows)).replace("@MORE@\n", ""))
open(f"{R}/DESIGN.md", "w").write("\n".join(out))
