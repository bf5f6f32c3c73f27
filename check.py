#!/usr/bin/env python3-vt
"""Decide one property:  check.py <ID> [quick|thorough]

1. every function under contract is re-read from /repo, its obligations are
   generated and discharged (vpy, z3/cvc5);
2. a concrete harness runs the real code: it replays failures and searches for a
   failing input (and is the labelled, bounded stand-in for code out of reach).
"""
import ast, hashlib, importlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

if os.environ.get("PYTHONHASHSEED") != "0":
    # the same names and the same order of facts on every run
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(100000)
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
T0 = time.time()


def tree_hash(repo):
    """hash of the package's syntax trees (comments and layout do not count)"""
    h = hashlib.sha256()
    for root, dirs, files in sorted(os.walk(os.path.join(repo, "neutralocean"))):
        dirs.sort()
        if "__pycache__" in root or "/examples" in root or "/tests" in root:
            continue
        for f in sorted(files):
            if f.endswith(".py"):
                p = os.path.join(root, f)
                try:
                    h.update((os.path.relpath(p, repo) + ast.dump(ast.parse(open(p).read()))).encode())
                except SyntaxError:
                    h.update(b"syntax error " + open(p, "rb").read())
    return h.hexdigest()


class Harness:
    def __init__(self, spec, seed, budget, tag):
        self.spec = spec
        self.dir = tempfile.mkdtemp(prefix="vpyh.")
        self.out, self.cur = os.path.join(self.dir, "out.json"), os.path.join(self.dir, "cur.json")
        self.log = open(os.path.join(self.dir, "log"), "w")
        env = dict(os.environ)
        env.update(PYTHONDONTWRITEBYTECODE="1", NUMBA_BOUNDSCHECK="1", NUMBA_NUM_THREADS="2", OMP_NUM_THREADS="2",
                   OPENBLAS_NUM_THREADS="2", NUMBA_CACHE_DIR=os.path.join(self.dir, "nb"), PYTHONHASHSEED="0")
        env.pop("PYTHONPATH", None)
        env.update(spec["env"])
        if spec["only"]:
            env["VERIF_ONLY"] = ",".join(spec["only"])
        self.budget = budget
        self.t0 = time.time()
        self.p = subprocess.Popen([PY, os.path.join(HERE, "harness", "run.py"), spec["harness"], "--seed", str(seed),
                                   "--budget", str(budget), "--out", self.out, "--cur", self.cur],
                                  stdout=self.log, stderr=subprocess.STDOUT, env=env, start_new_session=True, cwd=self.dir)

    def wait(self, idle=200, start=300):
        """-> result dict (fails, ...)"""
        while True:
            try:
                self.p.wait(1)
                break
            except subprocess.TimeoutExpired:
                pass
            try:
                age = time.time() - os.path.getmtime(self.cur)
                lim = idle
            except OSError:
                age = time.time() - self.t0
                lim = start
            if age > lim:
                os.killpg(self.p.pid, signal.SIGKILL)
                self.p.wait()
                r = dict(cases=0, kinds={}, fails=[], wall=time.time() - self.t0)
                if os.path.exists(self.cur):
                    c = json.load(open(self.cur))
                    r["cases"] = c["n"]
                    r["fails"] = [dict(case=c["case"], error=f"no result after {lim} s (does not terminate)")]
                else:
                    r["error"] = "harness did not start in time"
                self.close()
                return r
        rc = self.p.returncode
        log = open(os.path.join(self.dir, "log")).read()[-3000:]
        if rc == 0 and os.path.exists(self.out):
            r = json.load(open(self.out))
        else:
            r = dict(cases=0, kinds={}, fails=[], wall=time.time() - self.t0)
            if rc is not None and rc < 0 and os.path.exists(self.cur):
                c = json.load(open(self.cur))
                r["fails"] = [dict(case=c["case"], error=f"the process died with signal {-rc}")]
            elif os.path.exists(self.cur):
                c = json.load(open(self.cur))
                r["error"] = f"harness exit {rc}: {log[-800:]}"
            else:
                # the package (or what the harness uses of it) no longer imports
                r["error"] = f"harness could not start: {log[-800:]}"
                r["import_failed"] = "neutralocean" in log and ("ImportError" in log or "SyntaxError" in log or "AttributeError" in log)
        r["log"] = log[-500:]
        self.close()
        return r

    def close(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.log.close()
        shutil.rmtree(self.dir, ignore_errors=True)


def load_units(spec):
    from contracts import base
    for m in sorted(os.listdir(os.path.join(HERE, "contracts"))):
        if m.endswith(".py") and m not in ("__init__.py", "base.py"):
            importlib.import_module("contracts." + m[:-3])
    sel = []
    for u in base.UNITS:
        if type(u).__module__.split(".")[-1] not in spec["modules"]:
            continue
        n = u.unit
        if any(n == p or (p.startswith("re:") and re.search(p[3:], n)) or (p.endswith(":") and n.startswith(p)) or n.split("[")[0] == p or (p.startswith("lemma:") and n.startswith(p)) or (not p.endswith(":") and n.startswith(p + "_samesize")) for p in spec["units"]):
            sel.append(u)
    return base, sel


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    from props import PROPS
    spec = PROPS[pid]
    thorough = tier == "thorough"
    budget = spec["budget"] * (8 if thorough else 1)
    h = Harness(spec, seed, budget, pid)
    from vpy import engine as E, verify, align
    base, units = load_units(spec)
    bl = json.load(open(os.path.join(HERE, "baseline.json")))
    unchanged = tree_hash(REPO) == bl["tree"]
    repo = E.Repo()
    tmo = 30.0 if thorough else 10.0
    deadline = T0 + (2400 if thorough else 420)
    results = run_units(units, repo, base, bl, tmo, deadline, unchanged, E, verify, align)
    hr = h.wait()
    failed = [r for r in results if r.status == "failed"]
    unsup = [r for r in results if r.status in ("unsupported", "vacuous", "timeout")]
    # a failed obligation: spend more on finding a failing input
    second = None
    if failed and not hr["fails"]:
        second = Harness(spec, seed + 1000, max(60, budget * 2), pid).wait()
        if second["fails"]:
            hr["fails"] = second["fails"]
    elif unsup and not hr["fails"] and units:
        second = Harness(spec, seed + 2000, max(60, budget * 2), pid).wait()
        hr["fails"] = second["fails"]
    finish(pid, tier, seed, spec, results, hr, second, unchanged, failed, unsup)


def out_of_time(r):
    """undecided for want of time only"""
    return r.status == "failed" and all(f["status"] != "sat" and not f["tried"] for f in r.failed) and bool(r.failed)


def run_units(units, repo, base, bl, tmo, deadline, unchanged, E, verify, align):
    """every unit once; then those that failed again: with the invariants of all loops
    as candidates for every loop (when the source changed), and with more time"""
    todo = []
    for u in units:
        ren = {}
        key = f"{u.path}:{u.func}"
        if key in bl["src"]:
            try:
                node = E.find_def(repo.mod(u.path), u.func)
                if node is not None:
                    ren = align.rename_map(bl["src"][key], node)
            except Exception:
                ren = {}
        todo.append((u, ren))
    go = lambda k, t, pool, end: verify.verify(todo[k][0], repo, base.REG, rename=todo[k][1], tmo=t, deadline=end, pool=pool)
    first = deadline if unchanged else T0 + 0.6 * (deadline - T0)
    best = [go(k, tmo, False, first) for k in range(len(todo))]
    undecided = lambda r: r.status == "failed" and all(f["status"] != "sat" for f in r.failed)
    again = [k for k, r in enumerate(best) if r.status != "proved"]
    if not unchanged:
        for k in again:
            if todo[k][0].loops and time.time() < deadline:
                r = go(k, tmo, True, deadline)
                if r.status == "proved" or (best[k].status == "unsupported" and r.status == "failed") or out_of_time(best[k]):
                    best[k] = r
    for k in again:
        # a few undecided obligations: once more with a longer limit
        if undecided(best[k]) and (unchanged or len(best[k].failed) <= 4) and time.time() < deadline:
            r = go(k, 3 * tmo, False, deadline)
            if r.status == "proved" or not out_of_time(r):
                best[k] = r
    for r in best:
        if out_of_time(r) or (r.status == "failed" and unchanged):
            # not decided: no time left, or, where the source is the verified one, a solver limit
            r.status = "timeout"
    return best


def finish(pid, tier, seed, spec, results, hr, second, unchanged, failed, unsup):
    failed = [r for r in results if r.status == "failed"]
    viol = []
    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    obl = sum(r.n for r in results)
    dis = sum(r.ok for r in results)
    lines = []
    def obl_report():
        out = []
        for r in failed:
            out.append(dict(unit=r.unit, reason=r.reason, failed=[{k: (v if not isinstance(v, str) else v[:4000]) for k, v in f.items()} for f in r.failed[:8]], dropped_invariants=r.dropped))
        return out
    if hr["fails"]:
        f = hr["fails"][0]
        p = os.path.join(rdir, f"{pid}.json")
        json.dump(dict(property=pid, how=f"{PY} harness/run.py {spec['harness']} --replay {p}", case=f["case"], error=f["error"],
                       more=hr["fails"][1:], failed_obligations=obl_report()), open(p, "w"), indent=1)
        for r in failed:
            for q in r.failed[:3]:
                print(f"failed obligation: {q['name']} ({q['status']})")
        print(f"failing input: {f['error'][:600]}")
        print(f"VIOLATION property={pid} replay={p}")
        viol.append(dict(replay=p, what=f["error"][:1000]))
    elif failed:
        p = os.path.join(rdir, f"{pid}.json")
        json.dump(dict(property=pid, failed_obligations=obl_report(), search=dict(cases=hr.get("cases", 0) + (second or {}).get("cases", 0))), open(p, "w"), indent=1)
        for r in failed:
            for q in r.failed[:5]:
                print(f"failed obligation: {q['name']} ({q['status']})")
        print(f"VIOLATION property={pid} replay={p} no-failing-input-found")
        viol.append(dict(replay=p, what="; ".join(q["name"] for r in failed for q in r.failed[:5])))
    kf = json.load(open(os.path.join(HERE, "known_findings.json")))
    for e in kf.get("known", []):
        if e["property"] == pid:
            print(f"KNOWN-FINDING: property={pid} {e['what']}")
    proved = [r for r in results if r.status == "proved"]
    back = {}
    for r in results:
        for k, v in r.backends.items():
            back[k] = back.get(k, 0) + v
    from vpy import TRUSTED
    ev = dict(
        property=pid, tier=tier, seed=seed, level="proof" if results and not unsup and not failed else "exploration",
        coverage=dict(
            obligations=obl, discharged=dis, checker_cmd=f"python3-vt check.py {pid} {tier}",
            trusted_base=TRUSTED + spec["trusted"],
            functions_under_contract=[dict(unit=r.unit, status=r.status, obligations=r.n, discharged=r.ok, backends=r.backends,
                                           solver_s=round(r.solver_s, 2), wall_s=round(r.wall, 2), called_contracts=r.called, inlined=r.inlined,
                                           dropped_invariants=r.dropped, canaries=r.canaries, reason=r.reason, by_kind=r.obl_status, notes=r.notes) for r in results],
            evaluations=hr.get("cases", 0) + (second or {}).get("cases", 0), distinct_nontrivial=hr.get("distinct", 0),
            rule="random and edge cases of the harness; non-trivial: a distinct case that ran to a verdict (not skipped)", samples=hr.get("samples", []),
            proved=len(proved), units=len(results), backends=back, solver_s=round(sum(r.solver_s for r in results), 2),
            bounded=dict(note="concrete runs of the real code; a search, never counted as proved. " + spec["bounded"], harness=spec["harness"],
                         cases=hr.get("cases", 0), kinds=hr.get("kinds", {}), second=(second or {}).get("cases", 0), error=hr.get("error", ""),
                         stands_in_for=[r.unit for r in unsup]),
        ),
        assumptions=["floats are mathematical reals plus NaN; infinities only as symbolic bounds; integers unbounded",
                     "partial correctness: termination is not proved"] + spec["assume"],
        wall_s=round(time.time() - T0, 1), violations=len(viol),
    )
    if viol:
        ev["coverage"]["violation"] = viol
    json.dump(ev, open(os.path.join(HERE, "evidence", f"{pid}.json"), "w"), indent=1)
    print(f"{pid}: {len(proved)}/{len(results)} units proved, {dis}/{obl} obligations, {hr.get('cases', 0)} concrete cases, {time.time()-T0:.0f} s")
    for r in results:
        if r.status != "proved":
            print(f"  {r.unit}: {r.status} {r.reason[:200]}")
    if hr.get("error"):
        print("  harness:", hr["error"][-400:])
    sys.stdout.flush()
    os._exit(1 if viol else 0)


if __name__ == "__main__":
    main()
