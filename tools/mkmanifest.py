"""Writes MANIFEST.json: a check for every property that has contracts/<id>.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from properties_src import P  # noqa

NOTES = {}
NA = {}
exec(open(os.path.join(HERE, "tools", "notes.py")).read())

checks, na = [], []
for p in P:
    pid = p["id"]
    if os.path.exists(os.path.join(HERE, "contracts", pid.lower() + ".py")) and pid not in NA:
        checks.append(
            dict(
                property=pid,
                quick_cmd="python3-vt check.py %s" % pid,
                thorough_cmd="VERIF_TIER=thorough python3-vt check.py %s" % pid,
                evidence_file="evidence/%s.json" % pid,
                technique="contract-based deductive verification of the real source (pydv: symbolic execution + z3, invariants, data refinement); concrete replay on CPython",
                level="proof",
                level_note=NOTES.get(pid, "Every obligation generated from the current source is discharged for all inputs; floats as reals; library contracts trusted as listed in the evidence."),
            )
        )
    else:
        na.append(dict(property=pid, reason=NA.get(pid, "contracts for these functions are not written yet")))
json.dump(
    dict(
        version=1,
        setup_cmd="python3-vt -c \"import z3\" && /opt/venv/bin/python -c \"import torch\"",
        checks=checks,
        not_applicable=na,
        notes="pydv (in /verif/pydv) reads /repo's source on every run; nothing in /repo is instrumented.",
    ),
    open(os.path.join(HERE, "MANIFEST.json"), "w"),
    indent=1,
)
print([c["property"] for c in checks], [n["property"] for n in na])
