#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(f"{H}/properties.jsonl")]
FF = "symbolic execution of the real code over a symbolic big-integer type; z3 finite-field/integer queries decide every branch and assertion"
BMC = "; Kani/CBMC bounded model checking of the real code over a fixed-width integer shim"
TRUST = "Trusted: z3, the stand-in big-integer type's meaning (validated by native runs of the same harness each time), lemmas listed in DESIGN.md. Bounds are in DESIGN.md and in the evidence."
exec(open(f"{H}/tools/claims.py").read())
checks = []
for p in ids:
    if p in CLAIMS:
        k = CLAIMS[p]
        checks.append(dict(property=p, quick_cmd=f"./check {p}", thorough_cmd=f"env VERIF_TIER=thorough ./check {p}",
            technique=k.get("tech") or FF + (BMC if k.get("kani") else ""), level="model_checking", level_note=k["note"] + " " + TRUST))
na = [dict(property=p, reason=NA[p]) for p in ids if p not in CLAIMS]
m = dict(version=1, setup_cmd="./setup", hooks=dict(guard="redox_ecc_verif", enable='RUSTFLAGS="--cfg redox_ecc_verif"',
    source_commits=["d101dd9", "5054b21"]), checks=checks, not_applicable=na,
    notes="Technique family: solver-based checking of the real code. See DESIGN.md.")
json.dump(m, open(f"{H}/MANIFEST.json", "w"), indent=1)
