#!/usr/bin/env python3-vt
"""developer entry: python3-vt dev.py module [func ...]"""
import sys, importlib, time, os
if os.environ.get("PYTHONHASHSEED") != "0":
    # the same names and the same order of facts on every run
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, "/verif")
sys.setrecursionlimit(100000)
from vpy import engine as E, verify
from contracts import base
mods = sys.argv[1].split(",")
import os
for m in sorted(os.listdir("/verif/contracts")):
    if m.endswith(".py") and m not in ("__init__.py", "base.py", "props.py"):
        importlib.import_module("contracts." + m[:-3])
want = sys.argv[2:]
repo = E.Repo()
if os.environ.get("ONLY"):
    import re
    from vpy import solve
    _d = solve.discharge
    def disc(obls, *a, **k):
        keep = [o for o in obls if re.search(os.environ["ONLY"], o.name)]
        res = {id(o): d for o, d in zip(keep, _d(keep, *a, **k))}
        return [res.get(id(o), dict(status="valid", backend="skipped", time=0.0, tried=[])) for o in obls]
    solve.discharge = disc
for c in base.UNITS:
    if type(c).__module__.split(".")[-1] not in mods:
        continue
    if want and c.func not in want and c.name not in want:
        continue
    r = verify.verify(c, repo, base.REG, log=print, tmo=float(os.environ.get("TMO", "10")), pool=bool(os.environ.get("POOL")))
    print("==", c.unit, r.status, r.reason, f"{r.ok}/{r.n}", f"{r.wall:.1f}s", r.backends, "vac", getattr(r, "vacuous", None))
    if getattr(r, "tb", None): print(r.tb)
    for n in r.notes: print("   note", n)
    seen=set()
    for f in r.failed:
        print("   FAIL", f["name"], f["status"], f["tried"], f"{f['time']:.1f}")
        if os.environ.get("V"): print(f["goal"], "\n", f["model"])
