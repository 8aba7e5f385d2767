#!/opt/venv/bin/python
"""regenerate MANIFEST.json from properties.jsonl and the check modules"""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if not os.path.exists(os.path.join(V, "checks", p.lower() + ".py")):
        na.append(dict(property=p, reason="no check registered for this property yet; see the property's section in DESIGN.md"))
        continue
    m = importlib.import_module("checks." + p.lower())
    proof = m.LEVEL == "proof"
    tech = getattr(m, "TECHNIQUE", None) or ("contract-based deductive verification: obligations generated from the current source, discharged for all inputs" if proof else
        "contract evaluation of the real functions on enumerated inputs (bounded stand-in for the deductive contract)")
    note = getattr(m, "LEVEL_NOTE", None) or (m.__doc__ or "").strip().split("\n\n")[0].replace("\n", " ")
    c = dict(property=p, quick_cmd=f"python3 run.py {p}", thorough_cmd=f"python3 run.py {p} --tier thorough", evidence_file=f"evidence/{p}.json",
             technique=tech, level=m.LEVEL, level_note=note)
    if getattr(m, "THEOREMS", None):
        c["theorems"] = m.THEOREMS
    checks.append(c)
d = dict(version=1, setup_cmd="python3 run.py --setup", checks=checks, not_applicable=na,
         notes="Nothing is built into /repo: the checks import the package from /repo/src as it is on disk and parse the source they verify on every run. No hooks.")
json.dump(d, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
