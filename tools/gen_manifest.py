"""Writes MANIFEST.json from contracts/props.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from contracts.props import PROPS, NOTES
checks, na = [], []
for l in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in PROPS:
        checks.append(dict(property=p, quick_cmd=f"python3-vt -m dv.check {p}", thorough_cmd=f"VERIF_TIER=thorough python3-vt -m dv.check {p}",
                           evidence_file=f"evidence/{p}.json", technique="contract-based deductive verification: symbolic execution of the repository's functions against pre/postconditions and frames, obligations discharged by an exact ring/trig prover and z3",
                           level="proof", level_note=NOTES.get(p, "real arithmetic; every obligation regenerated from the current source and discharged on every run")))
    else:
        na.append(dict(property=p, reason="contracts not written yet"))
m = dict(version=1, setup_cmd="python3-vt -m dv.setup", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", [x["property"] for x in na])
