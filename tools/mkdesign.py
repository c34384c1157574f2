#!/usr/bin/env python3
"""Writes DESIGN.md: doc/preface.md, one section per property (statement, cases, oracle, cost), defects found, planted bugs."""
import glob, importlib, json, os, re, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
exec(open(H + "/doc/oracles.py", encoding="utf-8").read())
out = [open(H + "/doc/preface.md", encoding="utf-8").read().rstrip(), "", "## Per property", ""]
props = [json.loads(l) for l in open(H + "/properties.jsonl", encoding="utf-8")]
caught = {}
seeds = []
for m in sorted(glob.glob(H + "/seeded/*/meta.json")):
    d = json.load(open(m))
    d["id"] = os.path.basename(os.path.dirname(m))
    seeds.append(d)
for p in props:
    c = importlib.import_module("checks." + p["id"].lower()).CHECK
    out += ["### %s %s" % (p["id"], p["title"]), "", p["statement"], "",
            "* Cases: " + c.rule, "* Oracle: " + ORACLE[p["id"]],
            "* Tests cannot settle it: " + p["why_tests_cant"],
            "* Bounds and cost: quick %d cases x 8 workers (soft limit %d s), thorough %d x 8." % (c.quick, c.quick_s, c.thorough)]
    mine = [s["id"] for s in seeds if s["property"] == p["id"]]
    if mine:
        out.append("* Planted bugs: " + ", ".join(mine))
    out.append("")
out += [open(H + "/doc/tail.md", encoding="utf-8").read().rstrip(), "", "## Planted bugs (seeded/)", ""]
for s in seeds:
    out.append("* `%s` (%s): %s Needs: %s Caught by: %s." % (s["id"], s["property"], s["what_it_breaks"].rstrip(".") + ".", s["needs"].rstrip(".") + ".", CAUGHT.get(s["id"], s["property"])))
out += ["", "## Defects of the code found by these checks", "",
        "One line per repaired defect (property, commit in /repo, what failed), from `known_findings.txt`. None is left unrepaired." if not any(l.startswith("known:") for l in open(H + "/known_findings.txt")) else "From `known_findings.txt`.", ""]
for l in open(H + "/known_findings.txt", encoding="utf-8"):
    if not l.startswith("#") and l.strip():
        out.append("* " + l.strip())
open(H + "/DESIGN.md", "w", encoding="utf-8").write("\n".join(out) + "\n")
