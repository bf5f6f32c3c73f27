"""Run checks against behaviour-preserving edits in scratch copies of /repo.
usage: tryrefs.py SPEC.py [name ...]    (SPEC defines R: name -> (checks, [(file, old, new)]))"""
import os, runpy, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = runpy.run_path(sys.argv[1])["R"]
names = sys.argv[2:] or list(R)


def one(job):
    name, chk = job
    w, v = f"/tmp/tr.{name}.{chk}", f"/tmp/tw.{name}.{chk}"
    for x in (w, v):
        shutil.rmtree(x, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", w], check=True)
    os.makedirs(v + "/evidence")
    for x in os.listdir(HERE):
        if x not in ("seeded", ".git", "evidence", "tools"):
            os.symlink(f"{HERE}/{x}", f"{v}/{x}") if os.path.isdir(f"{HERE}/{x}") else shutil.copy(f"{HERE}/{x}", v)
    try:
        for f, old, new in R[name][1]:
            p = f"{w}/neutralocean/{f}"
            s = open(p).read()
            if s.count(old) < 1:
                return name, chk, "TEXT NOT FOUND " + old[:50], 0, ""
            open(p, "w").write(s.replace(old, new, 1))
        t = time.time()
        r = subprocess.run(["python3-vt", v + "/check.py", chk, "quick"], env=dict(os.environ, VERIF_REPO=w), capture_output=True, text=True)
        return name, chk, r.returncode, time.time() - t, r.stdout + r.stderr[-800:]
    finally:
        for x in (w, v):
            shutil.rmtree(x, ignore_errors=True)


with ThreadPoolExecutor(int(os.environ.get("JOBS", "2"))) as ex:
    for name, chk, rc, dt, out in ex.map(one, [(n, c) for n in names for c in R[n][0]]):
        print(f"== {name} {chk} rc={rc} {dt:.0f}s")
        print("   " + "\n   ".join(l[:220] for l in out.splitlines()[-6:]), flush=True)
