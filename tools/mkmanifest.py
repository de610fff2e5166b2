#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: a check for every property with a checks/cNN.py; NA gives the reasons for the rest."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
}
TECH = {"C25": "solver-based: symbolic execution of the real Python source into expression graphs, decided over the whole input box by a branch-and-prune constraint solver with Taylor models (z3 for the path structure), all paths within bounds"}
LEVEL_NOTE = ("Symbolic execution of /repo's current source (AST-instrumented on every run), every feasible path within the stated bounds decided by z3; "
              "counterexamples are replayed on the uninstrumented package before being reported. Exhaustive within the bounds of evidence.coverage.bounds, says nothing outside them.")
checks, na = [], []
for l in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(l)["id"]
    if os.path.exists(os.path.join(ROOT, "checks", p.lower() + ".py")) and p not in NA:
        checks.append(dict(property=p, quick_cmd="./check %s quick" % p, thorough_cmd="./check %s thorough" % p, evidence_file="evidence/%s.json" % p,
                           technique=TECH.get(p, "solver-based: symbolic execution of the real Python source with z3, all paths within bounds"), level="model_checking", level_note=LEVEL_NOTE))
    else:
        na.append(dict(property=p, reason=NA.get(p, "check under construction")))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
