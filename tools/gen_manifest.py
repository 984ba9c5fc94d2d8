"""Writes MANIFEST.json from harness/registry.py (run after adding a check)."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from harness.registry import CHECKS, NOT_APPLICABLE

props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
py = "/opt/venv/bin/python"
checks = []
na = []
for p in props:
    if p not in CHECKS:
        na.append(dict(property=p, reason=NOT_APPLICABLE.get(p, "no check built yet")))
        continue
    c = CHECKS[p]
    note = c.get("note") or "Every path of the named functions within the stated bounds."
    checks.append(dict(
        property=p,
        quick_cmd="%s check.py %s quick" % (py, p),
        thorough_cmd="%s check.py %s thorough" % (py, p),
        evidence_file="evidence/%s.json" % p,
        technique="symbolic execution of the real Python source with z3 deciding every path",
        level="model_checking",
        level_note=note + " Holds for every input within the bounds of the cases listed in the "
        "evidence file (text lengths, document shapes), nothing is claimed outside them. Trusts "
        "the models of str, re, dict and hashing in symex/, which are checked against the "
        "interpreter on solver witnesses in every run."))
m = dict(version=1, setup_cmd="%s check.py setup" % py, checks=checks, not_applicable=na,
         notes="See DESIGN.md. VERIF_BUDGET (seconds) bounds the exploration of one check.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
