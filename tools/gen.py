#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mech, level_note, technique, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None),
        _note=level_note, _tech=technique))

exec(open(os.path.join(ROOT, "tools", "properties.py")).read())

assert all(len(p["title"]) <= 80 for p in P), [p["title"] for p in P if len(p["title"]) > 80]
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
man = dict(version=1, setup_cmd="bash /verif/check.sh build",
    checks=[dict(property=p["id"], quick_cmd=f"VERIF_TIER=quick bash /verif/check.sh {p['id']}",
                 thorough_cmd=f"VERIF_TIER=thorough bash /verif/check.sh {p['id']}",
                 technique=p["_tech"], level="model_checking", level_note=p["_note"]) for p in P],
    hooks=dict(guard="none", enable="no hooks are needed: every property is observed through the public API",
               source_commits=[]),
    not_applicable=NOT_APPLICABLE, notes=NOTES)
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
