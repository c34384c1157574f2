#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from one table, so they stay in step.

Run:  python3 tools/mkprops.py     (from /verif)
"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/tool1cd/"
C = "src/ctool1cd/"

P = []


def prop(id, title, statement, qtext, why, files, mech, over=("inputs",), observe=(), state=(), hook=None, na=None, note=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext),
        why_tests_cant=why,
        anchors=dict(files=list(files),
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook),
        _na=na, _note=note))


exec(open(os.path.join(HERE, "tools", "props_table.py"), encoding="utf-8").read())


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf-8") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}, ensure_ascii=False) + "\n")
    checks, na = [], []
    for p in P:
        mod = os.path.join(HERE, "checks", p["id"].lower() + ".py")
        if p["_na"]:
            na.append(dict(property=p["id"], reason=p["_na"]))
        elif not os.path.exists(mod):
            na.append(dict(property=p["id"], reason="check not built yet"))
        else:
            checks.append(dict(
                property=p["id"],
                quick_cmd="./check %s --tier quick" % p["id"],
                thorough_cmd="./check %s --tier thorough" % p["id"],
                technique="property-based testing: Hypothesis-generated cases against an independent Python reference oracle, run on an ASan build of /repo",
                level="exploration",
                level_note=p["_note"] or "Randomised search over generated cases; shows absence of violations only on the cases explored. Trusts the Python reference implementation of the documented format/behaviour, Hypothesis, gcc/ASan and the executor shim."))
    m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
             notes="No hooks are needed: the checks use the public API of the library and the command-line program only.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as f:
        json.dump(m, f, ensure_ascii=False, indent=1)
        f.write("\n")
    print(len(P), "properties;", len(checks), "checks;", len(na), "not applicable")


main()
