#!/opt/veriftools/pyvenv/bin/python
"""writes /verif/MANIFEST.json: a property is claimed when it has proof units"""
import json
import os
import sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(H, "vc"), os.path.join(H, "conc"), H]
import check        # noqa
check.load()
import unit         # noqa
import suite        # noqa
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
notes = json.load(open(os.path.join(H, "tools", "level_notes.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if unit.UNITS.get(i):
        checks.append(dict(property=i, quick_cmd="./check.py %s" % i, thorough_cmd="./check.py %s" % i,
                           evidence_file="evidence/%s.json" % i,
                           technique="contract-based deductive verification: weakest-precondition VCs generated from the real Python source, discharged by z3/cvc5",
                           level="proof", level_note=notes.get(i) or notes["*"]))
    else:
        na.append(dict(property=i, reason=notes["na"].get(i, "no contract within reach yet decides this property; see DESIGN.md")))
m = dict(version=1, setup_cmd="/opt/veriftools/pyvenv/bin/python -c 'import z3, cvc5'", checks=checks, not_applicable=na,
         notes="no hooks in /repo are needed; the checks read /repo's source directly on every run")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", [x["property"] for x in na], "not")
