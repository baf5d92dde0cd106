#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and the checks / not_applicable lists of /verif/MANIFEST.json from one table."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = "include/dottorrent/"
P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), tech="", note="", level="model_checking"):
    assert len(title) <= 80, title
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                                mechanism=[dict(name=n, where=w) for n, w in mechanism],
                                observe_at=list(observe), hook_needed=None)),
              dict(technique=tech, level=level, level_note=note)))


exec(open(os.path.join(V, "tools", "properties_table.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p, _ in P:
        f.write(json.dumps(p) + "\n")
checks, na = [], []
for p, m in P:
    if os.path.exists(os.path.join(V, "tools", "props", p["id"].lower() + ".py")):
        checks.append(dict(property=p["id"], quick_cmd=f"python3 tools/check.py {p['id']} quick",
                           thorough_cmd=f"python3 tools/check.py {p['id']} thorough", **m))
    else:
        na.append(dict(property=p["id"], reason="the check is not built yet"))
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
                   notes="No hooks: the checks compile /repo's sources unmodified, with the third-party headers that are missing here replaced by those in shim/."), f, indent=1)
print(len(checks), "claimed;", len(na), "not claimed")
