#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []      # claimed properties
NA = []     # not applicable

def prop(id, title, statement, over, text, why, files, mech, note=None, na=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    P.append((d, note, na))

exec(open(os.path.join(V, "tools", "proptable.py")).read())

TECH = "bounded symbolic execution of the Go SSA of the real code, assertions decided by SMT (z3), counterexamples replayed natively"
BASE = ("Every path of the real code within the stated bounds is executed symbolically and each assertion is decided by the solver for all values of the symbolic inputs on it; "
        "violations are reported only after they reproduce on the natively compiled code. Trusted: the SSA translation and the library models listed in DESIGN.md (validated against native runs in every check). ")
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for d, note, na in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
m = dict(version=1, setup_cmd="bash build.sh", checks=[], not_applicable=[])
for d, note, na in P:
    if na:
        m["not_applicable"].append(dict(property=d["id"], reason=na))
        continue
    m["checks"].append(dict(property=d["id"], quick_cmd=f"bash check.sh {d['id']} quick", thorough_cmd=f"bash check.sh {d['id']} thorough",
        technique=TECH, level="model_checking", level_note=BASE + (note or "")))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
