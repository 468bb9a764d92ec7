#!/usr/bin/env python3
"""Writes DESIGN.md from the texts next to this file, properties.jsonl, the evidence of the last run and seeded/."""
import glob, json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); verif = os.path.dirname(here)
sys.path.insert(0, here)
from design_props import P
o = [open(here + "/design_head.md").read() + "\n"]
for l in open(verif + "/properties.jsonl"):
    p = json.loads(l); i = p["id"]; eng, what, oracle, why = P[i]
    e = json.load(open(f"{verif}/evidence/{i}.json")); c = e["coverage"]
    n = lambda k: f"{c.get(k, 0):,}"
    o.append(f"""### {i} {p['title']}

- Engine: {eng}.
- Enumerated: {what}
- Oracle: {oracle}
- Bounds: {c['bounds']}.
- Cost (quick): {round(e['wall_s'])} s; {n('traces_validated_against_impl')} executions, {n('states')} states, {n('transitions')} transitions.
- Why tests do not reach it: {why}

""")
o.append(open(here + "/design_tail.md").read())
o.append("| planted bug | check | needs |\n|---|---|---|\n")
for f in sorted(glob.glob(verif + "/seeded/*/meta.json")):
    m = json.load(open(f)); o.append(f"| {f.split('/')[-2]} | {m['property']} | {m['needs']} |\n")
o.append(open(here + "/design_end.md").read())
open(verif + "/DESIGN.md", "w").write("".join(o))
