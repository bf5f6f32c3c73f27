"""Verify one unit (a function under contract): generate, discharge, Houdini."""
import time
import z3
from . import engine as E
from . import solve
from . import values as V


class UnitResult:
    def __init__(self, unit):
        self.unit = unit
        self.status = None  # proved | failed | unsupported
        self.reason = ""
        self.failed = []  # (name, kind, status, model)
        self.n = 0
        self.ok = 0
        self.backends = {}
        self.solver_s = 0.0
        self.wall = 0.0
        self.rounds = 0
        self.dropped = []
        self.called = []
        self.inlined = []
        self.kinds = {}
        self.notes = []
        self.obl_status = {}  # kind -> [ok, total]
        self.canaries = 0

    def as_dict(self):
        return dict(self.__dict__)


def verify(contract, repo, registry, rename=None, tmo=10.0, nproc=None, deadline=None, kinds=None, maxrounds=6, log=None, pool=False):
    t0 = time.time()
    r = UnitResult(contract.unit)
    disabled = set()
    reg = {k: v for k, v in registry.items() if v.unit != contract.unit}
    for rnd in range(maxrounds):
        r.rounds = rnd + 1
        V.reset_names()
        ex = E.Exec(repo, reg, contract, frozenset(disabled), dict(rename or {}))
        ex.pool_mode = pool
        try:
            ex.run()
        except E.Unsupported as e:
            r.status = "unsupported"
            r.reason = str(e)
            r.wall = time.time() - t0
            return r
        except (AttributeError, KeyError, TypeError, IndexError, z3.Z3Exception, RecursionError, AssertionError) as e:
            import traceback
            r.status = "unsupported"
            r.reason = f"contract not attachable: {type(e).__name__}: {e}"
            r.tb = traceback.format_exc()
            r.wall = time.time() - t0
            return r
        obls = ex.obls
        if kinds is not None:
            obls = [o for o in obls if o.kind in kinds or o.cand]
        # vacuity canaries: must NOT be provable
        can = []
        for label, pc in ex.live_points:
            can.append(E.Obligation(f"{contract.unit}#canary:{label}", "canary", pc, z3.BoolVal(False), label, axioms=ex.axioms))
        pre = E.Obligation(f"{contract.unit}#canary:precondition", "canary", ex.pre_pc, z3.BoolVal(False), "pre", axioms=ex.axioms)
        for o in obls:
            o.axioms = ex.axioms
        tm = contract.options.get("timeout", tmo)
        res = solve.discharge(obls, tm, nproc, deadline)
        bad, soft = set(), set()
        for o, d in zip(obls, res):
            if o.cand and d["status"] != "valid":
                (bad if d["status"] == "sat" else soft).add(o.cand)
                if log:
                    log(f"    cand {o.name} {d['status']} {d.get('tried')} {d['time']:.1f}s {str(d.get('model'))[:1500]}")
        bad = bad or soft
        if log:
            log(f"  {contract.unit} round {rnd}: {len(obls)} obligations, {sum(d['status']=='valid' for d in res)} valid, dropped candidates {sorted(map(str,bad))}, {time.time()-t0:.1f}s")
        if bad and rnd + 1 < maxrounds:
            disabled |= bad
            continue
        break
    r.dropped = sorted(str(x) for x in disabled)
    r.called = sorted(ex.called)
    r.inlined = sorted(ex.inlined)
    r.notes = sorted(ex.notes) + [str(b) for b in sorted(map(str, ex.bad_inv))]
    r.n = len(obls)
    for o, d in zip(obls, res):
        ok = d["status"] == "valid"
        k = r.obl_status.setdefault(o.kind, [0, 0])
        k[1] += 1
        r.solver_s += d["time"]
        if ok:
            r.ok += 1
            k[0] += 1
            r.backends[d["backend"]] = r.backends.get(d["backend"], 0) + 1
        else:
            r.failed.append(dict(name=o.name, kind=o.kind, status=d["status"], backend=d["backend"],
                                 model=d.get("model", ""), tried=d.get("tried"), goal=str(o.goal)[:3000], time=d["time"]))
    # canaries (short)
    byl = {}
    for c in can:
        byl.setdefault(c.loc, []).append(c)
    todo = [pre] + [c for v in byl.values() for c in v[:6]]
    cres = solve.discharge(todo, 1.0, nproc, deadline)
    live = {}
    for c, d in zip(todo, cres):
        live.setdefault(c.loc, []).append(d["status"] != "valid")
    r.canaries = len(todo)
    r.vacuous = [k for k, v in live.items() if not any(v)]
    if r.n == 0:
        r.vacuous.append("no obligations")
    r.status = "proved" if r.ok == r.n and not r.vacuous else "failed"
    if r.ok == r.n and r.vacuous:
        r.status = "vacuous"
        r.reason = "vacuous: " + ", ".join(map(str, r.vacuous))
    r.wall = time.time() - t0
    return r
