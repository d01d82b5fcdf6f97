#!/usr/bin/env python3
"""Fills the per-property table of DESIGN.md from lib/plan.py, so that it stays in step."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import plan
P = [json.loads(l) for l in open(f"{HERE}/../properties.jsonl")]
out = []
for p in P:
    i = p["id"]
    if i not in plan.PLAN:
        continue
    e = plan.PLAN[i]
    q = ", ".join(f"`{h['name'].replace('h_', '', 1)}`" for h in plan.harnesses(i, "quick"))
    n = len(plan.harnesses(i, "thorough")) - len(plan.harnesses(i, "quick"))
    out.append(f"### {i} {p['title']}\n\n*Harnesses:* {q}{f' (+{n} thorough)' if n else ''}.\n\n*Bounds:* {e['bounds']}.\n\n*Outside:* {e.get('outside') or 'what the environment model abstracts'}.\n\n{plan.HOW.get(i, '')}\n")
f = f"{HERE}/../DESIGN.md"
s = open(f).read()
a, b = "<!-- properties -->\n", "<!-- /properties -->\n"
s = s[:s.index(a) + len(a)] + "\n" + "\n".join(out) + "\n" + s[s.index(b):]
open(f, "w").write(s)
