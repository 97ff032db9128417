"""Writes MANIFEST.json from vfw/props.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vfw.props import PROPS
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    "C16": "the tree's logic is in its SQL (recursive queries, triggers of updates along paths) executed by SQLite: no deductive verifier here gives contracts to the SQL engine, "
           "and the Python around it only forwards strings, so a contract would assume exactly what the property states",
}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PROPS:
        c = PROPS[i]
        checks.append({
            "property": i,
            "quick_cmd": f"python3 -m vfw.check {i}",
            "thorough_cmd": f"python3 -m vfw.check {i} --thorough",
            "technique": "contract-based deductive verification: contracts on the Python functions, mechanical extraction to WhyML on every run, Why3 obligations discharged by z3/cvc5",
            "level": "proof",
            "level_note": getattr(c, "level_note", "") or "Every obligation of the functions " + ", ".join(c.roots) + " (and of the contracts they call) is discharged for all inputs; "
            "assumptions: " + "; ".join(c.assumptions[3:] or ["none beyond the general ones"]) + ". A search on the real code supplies failing inputs and tests the assumptions; it is not counted as proof.",
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "not claimed yet: its contracts are still being built")})
m = {"version": 1, "setup_cmd": "python3 -m vfw.setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks are needed: contracts live in /verif/specs and are joined to the source extracted from /repo on every run."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
