#!/usr/bin/env python3-vt
"""MANIFEST.json from props.py"""
import json
from props import PROPS
checks = []
for pid, s in PROPS.items():
    dec = bool(s["units"])
    checks.append(dict(
        property=pid, quick_cmd=f"python3-vt check.py {pid} quick", thorough_cmd=f"python3-vt check.py {pid} thorough",
        technique="contract-based deductive verification of the functions in /repo (own VC generator over the Python source, z3/cvc5/exact algebra), failing inputs replayed on the real code" if dec
        else "bounded stand-in: run-time checked contracts on the real code",
        level="proof" if dec else "exploration",
        level_note=("All obligations of the functions listed in the evidence are discharged for all inputs; floats are reals plus NaN, termination is not proved. " if dec else "") + s["bounded"]))
json.dump(dict(version=1, setup_cmd="python3-vt -c 'import z3, cvc5'", checks=checks, not_applicable=[],
               notes="See DESIGN.md. No hooks: /repo carries only fix: commits."), open("MANIFEST.json", "w"), indent=1)
