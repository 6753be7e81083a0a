#!/usr/bin/env python3
"""writes /verif/MANIFEST.json from dv/props.py and properties.jsonl"""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, R)
from dv.props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(R, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in PROPS and PROPS[i]["functions"]:
        c = PROPS[i]
        checks.append(dict(property=i, quick_cmd=f"python3-vt check.py {i}", thorough_cmd=f"python3-vt check.py {i} --thorough",
            technique="contract-based deductive verification: contracts and loop invariants on the C functions of /repo/src, obligations generated from the current source by symbolic execution of its clang AST and discharged by z3/cvc5",
            level=c["level"], level_note=c["explanation"] + (" Bounded only: " + "; ".join(c["bounded_only"]) + "." if c.get("bounded_only") else "") + " Assumes: sequential execution, successful allocation, contracts of callees owned by other checks; the verifier itself is trusted."))
    else: na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "contracts not written yet")))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
    notes="check.py first discharges the obligations, then runs a bounded replay harness against the real code, which supplies the failing input of a violation when it finds one."), open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
