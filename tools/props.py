#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "scouterx/"
P = []

def prop(id, title, statement, over, text, why, files, mech, note, observe=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=[S + f for f in files],
                  mech=[dict(name=n, where=S + w) for n, w in mech], note=note, observe=observe or [], na=na))

exec(open(os.path.join(V, "tools", "proptable.py")).read())

def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            a = dict(files=p["files"], mechanism=p["mech"], hook_needed=None)
            if p["observe"]:
                a["observe_at"] = p["observe"]
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                    quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"], anchors=a)) + "\n")
    checks, na = [], []
    for p in P:
        if os.path.isdir(os.path.join(V, "harness", p["id"].lower())) and not p["na"]:
            checks.append(dict(property=p["id"], quick_cmd="./check.sh %s quick" % p["id"], thorough_cmd="./check.sh %s thorough" % p["id"],
                               technique="symbolic execution of the compiled Go SSA with an SMT solver (z3), counterexamples replayed natively",
                               level="model_checking", level_note=p["note"]))
        else:
            na.append(dict(property=p["id"], reason=p["na"] or "no check is built for this property yet"))
    m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
             hooks=dict(guard="none", enable="no hooks: /repo is compiled with an overlay (go -overlay) that maps the environment packages it imports to the stand-ins in /verif/shim; nothing in /repo is changed", source_commits=[]),
             notes="Every check encodes /repo's current source on each run: the Go SSA of the repository, of the standard library it uses and of the harness is executed symbolically; see DESIGN.md.")
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
    print(len(P), "properties,", len(checks), "claimed")

main()
