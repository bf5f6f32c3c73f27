"""Validate planted bugs in a scratch copy and write /verif/seeded/<id>/.
usage: python3 tools/mkseeds.py SPEC.py [id ...]     (SPEC defines SEEDS: list of dicts)"""
import json, os, runpy, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ENV = {k: v for k, v in os.environ.items() if k not in ("PYTHONPATH",)}
ENV.update(PYTHONDONTWRITEBYTECODE="1", NUMBA_NUM_THREADS="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
HEAD = """#!/bin/bash
# run with cwd = the repository, after its build
D="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" NUMBA_CACHE_DIR="$(mktemp -d)"
trap 'rm -rf "$NUMBA_CACHE_DIR"' EXIT
timeout 250 /opt/venv/bin/python "$D/demo.py"
"""

def one(s):
    w = f"/tmp/sr.{s['id']}"
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", w], check=True)
    try:
        d = os.path.join(w, ".demo")
        os.makedirs(d)
        open(d + "/demo.sh", "w").write(HEAD)
        open(d + "/demo.py", "w").write(s["demo"].lstrip())
        r = subprocess.run(["bash", d + "/demo.sh"], cwd=w, env=ENV, capture_output=True, text=True)
        if r.returncode:
            return s["id"], "demo fails unpatched: " + (r.stdout + r.stderr)[-600:]
        for f, old, new in s["edits"]:
            p = os.path.join(w, f)
            t = open(p).read()
            if t.count(old) != s.get("count", 1):
                return s["id"], f"{f}: old text occurs {t.count(old)} times"
            open(p, "w").write(t.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=w, capture_output=True, text=True).stdout
        r = subprocess.run(["bash", d + "/demo.sh"], cwd=w, env=ENV, capture_output=True, text=True)
        if r.returncode == 0:
            return s["id"], "demo passes patched"
        why = (r.stdout + r.stderr)[-200:]
        e = dict(ENV, NUMBA_CACHE_DIR=w + "/.nb")
        r = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", f"--rootdir={w}", "--timeout=100", "neutralocean/tests"], cwd=w, env=e, capture_output=True, text=True)
        if "27 passed" not in r.stdout or "failed" in r.stdout:
            return s["id"], "tests: " + r.stdout[-700:]
        o = os.path.join(HERE, "seeded", s["id"])
        os.makedirs(o, exist_ok=True)
        open(o + "/patch.diff", "w").write(diff)
        open(o + "/demo.sh", "w").write(HEAD)
        open(o + "/demo.py", "w").write(s["demo"].lstrip())
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(o + "/meta.json", "w"), indent=1)
        return s["id"], "ok  " + why.strip().splitlines()[-1][:100]
    finally:
        shutil.rmtree(w, ignore_errors=True)

seeds = runpy.run_path(sys.argv[1])["SEEDS"]
if sys.argv[2:]:
    seeds = [s for s in seeds if s["id"] in sys.argv[2:]]
with ThreadPoolExecutor(6) as ex:
    for i, m in ex.map(one, seeds):
        print(i, m)
