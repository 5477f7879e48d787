"""Write /verif/MANIFEST.json from the claimed properties (those with contracts) and the reasons of the others."""
import json, os, sys, importlib
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "spec"))
from vc import spec
for f in sorted(os.listdir(os.path.join(HERE, "contracts"))):
    if f.endswith(".py") and not f.startswith("_"):
        importlib.import_module("contracts." + f[:-3])
from notes import NOTES, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    mine = [c for c in spec.CONTRACTS if (c.prop == i or i in c.also or (i == "A01" and c.frame))]
    proved = [c for c in mine if not c.bounded]
    if not mine or i in NOT_APPLICABLE:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check built yet")})
        continue
    checks.append({
        "property": i,
        "quick_cmd": "python3-vt check.py %s --tier quick" % i,
        "thorough_cmd": "python3-vt check.py %s --tier thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "contract-based deductive verification of the real source (own VC generator over /repo's AST, z3/cvc5)"
        if proved else "run-time contract checking of the real code (bounded stand-in)",
        "level": "proof" if proved else "other",
        "level_note": NOTES.get(i, "%d contracts proved for all inputs, %d bounded (run-time contract checking)" % (
            len(proved), len(mine) - len(proved))),
    })
m = {"version": 1, "setup_cmd": "python3-vt -c \"import z3, cvc5, numpy\" && /opt/venv/bin/python -c \"import numpy, scipy, numba\"",
     "checks": checks, "not_applicable": na,
     "notes": "Every check re-reads /repo/algotom, generates the verification conditions of the contracts in /verif/contracts and discharges them."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not claimed")
