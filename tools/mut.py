#!/usr/bin/env python3-vt
"""developer tool: mut.py FILE OLD NEW module [func..]: run the units on a copy of
the package with one textual change"""
import os, shutil, subprocess, sys, tempfile
f, old, new, *rest = sys.argv[1:]
d = tempfile.mkdtemp(prefix="mut.")
try:
    shutil.copytree("/repo/neutralocean", d + "/neutralocean", ignore=shutil.ignore_patterns("__pycache__", "tests"))
    p = os.path.join(d, f)
    s = open(p).read()
    assert s.count(old) >= 1, "text not found"
    open(p, "w").write(s.replace(old, new, 1))
    e = dict(os.environ, VERIF_REPO=d, TMO=os.environ.get("TMO", "5"))
    r = subprocess.run(["python3-vt", "/verif/dev.py", *rest], env=e, capture_output=True, text=True)
    print(f"--- {old!r} -> {new!r}")
    print("\n".join(l[:200] for l in (r.stdout + r.stderr).splitlines() if l.startswith(("==", "   FAIL", "   note")) or "Error" in l))
finally:
    shutil.rmtree(d)
