"""Concrete side of a check: replay and property-based search against the real
code in /repo.  Runs under /opt/venv/bin/python.

  run.py MODULE --seed S --budget SEC --out OUT.json --cur CUR.json
  run.py MODULE --replay CASE.json

MODULE defines  edge() -> list of cases, gen(rng) -> case, check(case) -> None | str
(cases are JSON).  Every array access of the compiled kernels is bounds-checked.
"""
import os

os.environ.setdefault("NUMBA_BOUNDSCHECK", "1")
os.environ.setdefault("NUMBA_NUM_THREADS", "2")
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import argparse, importlib, json, random, time, traceback, warnings

warnings.simplefilter("ignore")


def dump(path, obj):
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(obj, f)
    os.replace(tmp, path)


SKIP = object()


def run_case(mod, case):
    try:
        return mod.check(case)
    except mod_skip():
        return SKIP
    except MemoryError:
        return None
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb][-4:]
        return f"raised {type(e).__name__}: {e} at {' < '.join(reversed(where))}"


def mod_skip():
    from hutil import Skip

    return Skip


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("module")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--budget", type=float, default=20)
    ap.add_argument("--out")
    ap.add_argument("--cur")
    ap.add_argument("--replay")
    ap.add_argument("--maxcases", type=int, default=10**9)
    a = ap.parse_args()
    import neutralocean

    root = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
    assert os.path.realpath(neutralocean.__file__).startswith(root), neutralocean.__file__
    mod = importlib.import_module(a.module)
    if a.replay:
        case = json.load(open(a.replay))
        case = case.get("case", case)
        r = run_case(mod, case)
        r = None if r is SKIP else r
        print("case:", json.dumps(case)[:2000])
        print("result:", r or "holds")
        return 1 if r else 0
    rng = random.Random(a.seed)
    fails = []
    n = 0
    kinds = {}
    seen = set()
    samples = []

    def do(case):
        nonlocal n
        if a.cur:
            dump(a.cur, {"n": n, "case": case})
        r = run_case(mod, case)
        n += 1
        if r is not SKIP:
            h = hash(json.dumps(case, sort_keys=True))
            if h not in seen:
                seen.add(h)
                if len(samples) < 2:
                    samples.append(json.dumps(case)[:1500])
        else:
            r = None
        k = case.get("kind", "?")
        kinds[k] = kinds.get(k, 0) + 1
        if r:
            fails.append({"case": case, "error": r})

    t0 = time.time()
    only = [k for k in os.environ.get("VERIF_ONLY", "").split(",") if k]
    edges = [c for c in mod.edge() if not only or c.get("kind") in only]
    if a.seed != 1:
        rng.shuffle(edges)
    for c in edges:
        do(c)
        if len(fails) >= 3:
            break
    t1 = time.time()
    ne = n
    while not fails and n < a.maxcases and time.time() - t1 < a.budget:
        c = mod.gen(rng)
        if only and c.get("kind") not in only:
            continue
        do(c)
    dump(a.out, {"cases": n, "edge_cases": ne, "kinds": kinds, "fails": fails, "distinct": len(seen), "samples": samples, "wall": time.time() - t0, "seed": a.seed})
    return 0


if __name__ == "__main__":
    sys.exit(main())
