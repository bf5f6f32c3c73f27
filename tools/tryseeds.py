"""Run the quick check of each seeded bug's property against a patched scratch copy.
usage: tryseeds.py [id ...]"""
import json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(HERE + "/seeded"))
def one(i):
    d = f"{HERE}/seeded/{i}"
    m = json.load(open(d + "/meta.json"))
    w, v = f"/tmp/ts.{i}", f"/tmp/tv.{i}"
    for x in (w, v):
        shutil.rmtree(x, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", w], check=True)
    os.makedirs(v)
    for x in os.listdir(HERE):
        if x not in ("seeded", ".git", "evidence", "tools"):
            os.symlink(f"{HERE}/{x}", f"{v}/{x}") if os.path.isdir(f"{HERE}/{x}") else shutil.copy(f"{HERE}/{x}", v)
    os.makedirs(v + "/evidence")
    subprocess.run(["git", "apply", d + "/patch.diff"], cwd=w, check=True)
    t = time.time()
    r = subprocess.run(["python3-vt", v + "/check.py", m["property"], "quick"], env=dict(os.environ, VERIF_REPO=w), capture_output=True, text=True)
    for x in (w, v):
        shutil.rmtree(x, ignore_errors=True)
    return i, r.returncode, time.time() - t, r.stdout + r.stderr[-800:]
with ThreadPoolExecutor(3) as ex:
    for i, rc, dt, out in ex.map(one, ids):
        print(f"== {i} rc={rc} {dt:.0f}s")
        print("   " + "\n   ".join(l[:220] for l in out.splitlines()[-8:]), flush=True)
