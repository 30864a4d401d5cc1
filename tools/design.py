#!/usr/bin/env python3
"""Fills the generated tables of DESIGN.md, from evidence/ of a quick run and from seeded/."""
import json, glob, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def table():
    out = ["| property | states | transitions | executions of krates | distinct outcomes | s |", "|---|---|---|---|---|---|"]
    for f in sorted(glob.glob(R + "/evidence/C*.json")):
        e = json.load(open(f)); c = e["coverage"]
        n = lambda k: f"{c[k]:,}".replace(",", " ")
        out.append(f"| {e['property']} | {n('states')} | {n('transitions')} | {n('traces_validated_against_impl')} | {n('distinct_outcomes')} | {e['wall_s']:.0f} |")
    return "\n".join(out)
def seeds():
    out = ["| property | changed | needs |", "|---|---|---|"]
    for f in sorted(glob.glob(R + "/seeded/*/meta.json"), key=lambda f: (json.load(open(f))["property"], f)):
        m = json.load(open(f))
        out.append(f"| {m['property']} | {f.split('/')[-2]} | {m['needs']} |")
    return "\n".join(out)
p = R + "/DESIGN.md"; s = open(p).read()
for k, t in (("sizes", table()), ("seeds", seeds())):
    s = re.sub(rf"(<!-- {k} -->\n).*?(<!-- /{k} -->)", lambda m: m[1] + t + "\n" + m[2], s, flags=re.S)
open(p, "w").write(s)
