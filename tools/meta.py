#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json:  python3 tools/meta.py"""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []
TECH = "symbolic execution of the compiled Rust sources (symbolic field elements), obligations decided by z3"
NOTE = "Holds for all values of the symbolic inputs within the stated shapes and sizes (bounded); shapes are enumerated. Trusts the symbolic field substituted for pasta_curves and z3; disequalities met on the path are generic-position assumptions unless the equality branch is explored as well."
def p(id, title, statement, over, text, why, files, mech, tech=TECH, note=NOTE, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if hook: a["hook_needed"] = hook
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a), tech, note))
def na(prop, reason):
    NA.append(dict(property=prop, reason=reason))
exec(open(os.path.join(R, "tools", "props.py")).read())
assert len({x[0]["id"] for x in P}) == len(P)
for x, _, _ in P:
    assert len(x["title"]) <= 80, x["id"]
P.sort(key=lambda x: x[0]["id"])
with open(os.path.join(R, "properties.jsonl"), "w") as f:
    for x, _, _ in P:
        f.write(json.dumps(x) + "\n")
naids = {x["property"] for x in NA}
m = dict(version=1, setup_cmd="./setup.sh",
    hooks=dict(guard="--cfg halo2_verif", enable='RUSTFLAGS="--cfg halo2_verif" (set by /verif/env.sh)', source_commits=HOOKS),
    checks=[dict(property=x["id"], quick_cmd=f"./check {x['id']} quick", thorough_cmd=f"./check {x['id']} thorough", technique=t, level="other", level_note=n) for x, t, n in P if x["id"] not in naids],
    not_applicable=NA,
    notes="See DESIGN.md. ./check <ID> replay <file> re-runs a reported counterexample. Known findings and repairs: known-findings.txt.")
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
