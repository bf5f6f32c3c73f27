"""Discharge obligations: z3 (several strategies), then cvc5, in forked workers."""
import os
import pickle
import re
import subprocess
import sys
import tempfile
import time
import selectors
import z3
from . import ratio, algebra

NPROC = int(os.environ.get("VERIF_NPROC", "8"))


def symbols(e, memo):
    i = e.get_id()
    if i in memo:
        return memo[i][0]
    out = set()
    stack = [e]
    seen = set()
    while stack:
        x = stack.pop()
        j = x.get_id()
        if j in seen:
            continue
        seen.add(j)
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(d.name())
            stack.extend(x.children())
    memo[i] = (out, e)
    return out


HEADS = {}  # axiom -> the symbols it is about (it says nothing without one of them)
_BINDER = re.compile(r"[A-Za-z]\w*![a-z]+$")


def about(f, *heads):
    """declare what the axiom f is about"""
    HEADS[f.get_id()] = (frozenset(h if isinstance(h, str) else h.decl().name() for h in heads), f)
    return f


def relevant_axioms(axioms, fs, memo):
    syms = set()
    for f in fs:
        syms |= symbols(f, memo)
    bound = lambda a: any(_BINDER.match(q) and q not in syms for q in symbols(a, memo))
    # an axiom about a bound variable of a specification concerns no other term
    left = [a for a in axioms if not bound(a)]
    out = []
    ch = True
    while ch and left:
        ch = False
        rest = []
        for a in left:
            sa = symbols(a, memo)
            fn = HEADS.get(a.get_id(), (sa,))[0]
            if fn & syms or not fn:
                out.append(a)
                syms |= sa
                ch = True
            else:
                rest.append(a)
        left = rest
    return out


def is_let(f):
    """definition of a let-variable (a named non-linear intermediate)"""
    return z3.is_eq(f) and z3.is_const(f.arg(0)) and "let!" in f.arg(0).decl().name()


def has_q(e):
    from .engine import has_quant
    return has_quant(e)


def model_text(m):
    try:
        t = str(m)
    except Exception as e:  # pragma: no cover
        t = repr(e)
    return t[:4000]


def eq_subst(pc, extra, g):
    """orient integer equalities sk == t in the extra facts and substitute"""
    subs = []
    for f in extra:
        if z3.is_eq(f) and z3.is_int(f.arg(0)):
            a, b = f.arg(0), f.arg(1)
            if z3.is_const(b) and b.decl().name().startswith("sk!"):
                a, b = b, a
            if z3.is_const(a) and a.decl().name().startswith("sk!"):
                subs.append((a, b))
    return subs


def one(ob, tmo, memo):
    """-> dict(status, backend, time, model)"""
    t0 = time.time()
    if isinstance(ob.goal, algebra.AlgGoal):
        return ob.goal.decide()
    r = attempt_all(list(ob.pc), ob.axioms, ob.goal, min(tmo, 2.0) if splittable(ob.goal) else tmo, memo, last=not splittable(ob.goal))
    if r["status"] == "unknown" and splittable(ob.goal):
        tried = list(r["tried"])
        backs = set()
        subs = ratio.split(ob.goal)
        status, model = "valid", ""
        for extra, g in subs:
            q = attempt_all(list(ob.pc) + extra, ob.axioms, g, min(3.0, tmo), memo, last=False)
            if q["status"] == "unknown":
                q2 = by_cases(list(ob.pc), extra, g, ob.axioms, tmo, memo)
                if q2 is not None:
                    q = q2
            if q["status"] == "unknown":
                q = attempt_all(list(ob.pc) + extra, ob.axioms, g, tmo, memo)
            tried += q["tried"][-3:]
            backs.add(q["backend"])
            if q["status"] != "valid":
                status, model = q["status"], f"subgoal {str(g)[:600]}: " + str(q.get("model", ""))
                break
        if status == "valid":
            r = dict(status="valid", backend="+".join(sorted(backs)) if len(backs) == 1 else "split")
        else:
            r = dict(status=status, backend="split", model=model)
        r["tried"] = tried
    r["time"] = time.time() - t0
    return r


def splittable(g):
    return z3.is_and(g) or z3.is_implies(g) or (z3.is_quantifier(g) and g.is_forall()) or z3.is_eq(g)


def by_cases(pc, extra, g, axioms, tmo, memo):
    """resolve if-then-else terms, then prove equations as rational identities"""
    qf = [f for f in pc + extra if not has_q(f)]
    try:
        cases = ratio.resolve_ites(qf, g)
    except (OverflowError, RecursionError):
        return None
    tried = []
    backs = set()
    for ex2, h in cases:
        facts = pc + extra + ex2
        subs = eq_subst(pc, extra + ex2, h)
        if subs:
            h = z3.simplify(z3.substitute(h, *subs))
        ok = None
        if z3.is_eq(h) and z3.is_arith(h.arg(0)) or z3.is_true(h):
            ok = ratio_goal(facts, h, axioms, memo, subs)
        if ok:
            backs.add("ratio")
            continue
        q = attempt_all(facts, axioms, h, tmo, memo)
        tried += q["tried"][-2:]
        if q["status"] != "valid":
            q["tried"] = tried
            return q
        backs.add(q["backend"])
    return dict(status="valid", backend="+".join(sorted(backs)) or "z3", tried=["cases"] + tried)


def norm(e):
    return z3.simplify(e, som=False)


def ratio_goal(facts, h, axioms, memo, subs):
    if z3.is_true(h):
        return True
    h = norm_args(h)
    a, b = h.arg(0), h.arg(1)
    divs = ratio.identity(a, b)
    if divs is None:
        return False
    for d in divs:
        q = attempt_all(facts, axioms, d != 0, 3.0, memo, last=False)
        if q["status"] != "valid":
            return False
    return True


def norm_args(e, cache=None):
    """simplify the integer arguments of uninterpreted functions, so that equal
    array elements become identical terms"""
    cache = {} if cache is None else cache

    def go(x):
        k = x.get_id()
        if k in cache:
            return cache[k][0]
        if z3.is_app(x) and x.num_args():
            ch = [z3.simplify(c) if (z3.is_int(c) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED) else go(c) for c in x.children()]
            if x.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_MUL):
                r = x.decl()(*ch) if len(ch) <= 2 else (z3.Sum(ch) if x.decl().kind() == z3.Z3_OP_ADD else z3.Product(ch))
            else:
                r = x.decl()(*ch)
        else:
            r = x
        cache[k] = (r, x)
        return r

    return go(e)


_MULF = z3.Function("mul!uf", z3.RealSort(), z3.RealSort(), z3.RealSort())
_DIVF = z3.Function("div!uf", z3.RealSort(), z3.RealSort(), z3.RealSort())


def isnum(e):
    return z3.is_rational_value(e) or z3.is_int_value(e)


def uf_arith(e, cache):
    """non-linear real products and quotients as uninterpreted functions
    (a weaker theory: what is valid there is valid)"""

    def go(x):
        k = x.get_id()
        if k in cache:
            return cache[k][0]
        if z3.is_quantifier(x):
            vs = [z3.Const(f"qv!{x.var_name(i)}!{i}", x.var_sort(i)) for i in range(x.num_vars())]
            b = go(z3.substitute_vars(x.body(), *reversed(vs)))
            r = z3.ForAll(vs, b) if x.is_forall() else z3.Exists(vs, b)
        elif z3.is_app(x) and x.num_args():
            ch = [go(c) for c in x.children()]
            kd = x.decl().kind()
            if kd == z3.Z3_OP_MUL and z3.is_real(x):
                nums = [c for c in ch if isnum(c)]
                non = [c for c in ch if not isnum(c)]
                if len(non) > 1:
                    r = non[0]
                    for c in non[1:]:
                        r = _MULF(r, c)
                    for c in nums:
                        r = c * r
                else:
                    r = z3.Product(ch)
            elif kd == z3.Z3_OP_DIV and not isnum(ch[1]):
                r = _DIVF(ch[0], ch[1])
            elif kd == z3.Z3_OP_ADD:
                r = z3.Sum(ch)
            elif kd == z3.Z3_OP_AND:
                r = z3.And(ch)
            elif kd == z3.Z3_OP_OR:
                r = z3.Or(ch)
            elif kd == z3.Z3_OP_MUL:
                r = z3.Product(ch)
            elif kd == z3.Z3_OP_SUB:
                r = ch[0]
                for c in ch[1:]:
                    r = r - c
            elif kd == z3.Z3_OP_DISTINCT:
                r = z3.Distinct(*ch)
            else:
                r = x.decl()(*ch)
        else:
            r = x
        cache[k] = (r, x)
        return r

    return go(e)


def has_nl(e, memo={}):
    from .engine import nonlinear_any
    return nonlinear_any(e)


def with_witnesses(goal):
    """Exists k. body(k), with body testing k == t: the same as body(t) or
    Exists k. body(k) (t gives the solver a term to start from)"""
    if z3.is_or(goal):
        return z3.Or([with_witnesses(g) for g in goal.children()])
    if not (z3.is_quantifier(goal) and goal.is_exists() and goal.num_vars() == 1 and z3.is_int(z3.Const("w", goal.var_sort(0)))):
        return goal
    found, seen, todo = [], set(), [goal.body()]
    isk = lambda x: z3.is_var(x) and z3.get_var_index(x) == 0
    while todo:
        x = todo.pop()
        if x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        if z3.is_eq(x) and isk(x.arg(0)) != isk(x.arg(1)):
            t = x.arg(1) if isk(x.arg(0)) else x.arg(0)
            if not has_var(t) and not any(t.eq(u) for u in found):
                found.append(t)
        todo.extend(x.children())
    if not found or len(found) > 4:
        return goal
    return z3.Or([z3.substitute_vars(goal.body(), t) for t in found] + [goal])


def has_var(t):
    return z3.is_var(t) or any(has_var(c) for c in t.children())


def attempt_all(pc, axioms, goal, tmo, memo, last=True):
    t0 = time.time()
    goal = with_witnesses(goal)
    ax = relevant_axioms(axioms, pc + [goal], memo)
    fs = pc + ax
    neg = z3.Not(goal)
    quant = any(has_q(f) for f in fs) or has_q(goal)
    tried = []

    def attempt(label, mk, ms, fset):
        s = mk()
        try:
            s.set("timeout", int(ms))
        except z3.Z3Exception:
            pass
        s.add(*fset)
        s.add(neg)
        try:
            r = s.check()
        except z3.Z3Exception:
            tried.append(f"{label}:err")
            return None
        tried.append(f"{label}:{r}")
        if r == z3.unsat:
            return dict(status="valid", backend=label)
        if r == z3.sat:
            return dict(status="sat", backend=label, model=model_text(s.model()))
        return None

    def mk_default():
        return z3.Solver()

    def mk_nombqi():
        s = z3.SimpleSolver()
        s.set("auto_config", False)
        s.set("mbqi", False)
        return s

    def mk_nra():
        return z3.Then("simplify", "solve-eqs", "purify-arith", "elim-term-ite", "qfnra-nlsat").solver()

    qfset = [f for f in fs if not has_q(f)]
    plan = []
    if has_nl(goal) or any(has_nl(f) for f in fs):
        cache = memo.setdefault("uf", {})
        uf = [uf_arith(f, cache) for f in fs]
        ng = z3.Not(uf_arith(goal, cache))
        for seed, frac in ((0, 0.06), (1, 0.06), (2, 0.06), (3, 0.06), (0, 0.3)):
            s = mk_nombqi()
            s.set("random_seed", seed)
            s.set("timeout", int(1000 * tmo * frac))
            s.add(*uf)
            s.add(ng)
            t1 = time.time()
            r = s.check()
            tried.append(f"z3-uf:{r}")
            if r == z3.unsat or r == z3.sat or time.time() - t1 < 0.5 * tmo * frac:
                break  # not for lack of time
        if r == z3.unsat:
            return dict(status="valid", backend="z3-uf", tried=tried, time=time.time() - t0)
    if quant:
        sizes = sorted(dag_size(f) for f in fs)
        if sizes and sizes[-1] > 90:
            for lim in (60, 160):
                light = [f for f in fs if dag_size(f) <= lim]
                if len(light) < len(fs):
                    plan.append((f"z3-light{lim}", mk_nombqi, 0.12, light))
    absset = [f for f in qfset if not is_let(f)]
    if len(absset) < len(qfset) and not has_q(goal):
        plan.append(("z3-qf-abs", mk_default, 0.15, absset))
    if quant:
        if len(absset) < len(qfset):
            plan.append(("z3-ematch-abs", mk_nombqi, 0.3, [f for f in fs if not is_let(f)]))
        if not has_q(goal):
            plan.append(("z3-qf", mk_default, 0.15, qfset))
        plan += [("z3-ematch", mk_nombqi, 0.35, fs), ("z3", mk_default, 0.5, fs)]
    else:
        plan += [("z3", mk_default, 0.4, fs), ("z3-nra", mk_nra, 0.6, fs)]
    best = None
    for label, mk, frac, fset in plan:
        r = attempt(label, mk, 1000 * tmo * frac, fset)
        if r is None:
            continue
        if r["status"] == "valid":
            best = r
            break
        if r["status"] == "sat":
            if label in ("z3-qf", "z3-qf-abs"):
                continue  # quantified facts were left out
            if label.startswith("z3-light") or label == "z3-ematch-abs" or (quant and label == "z3-ematch"):
                continue  # e-matching saturation is not a model
            best = r
            break
    if best is None and tmo >= 3 and last:
        r = cvc5_try(fs, neg, tmo)
        tried.append(f"cvc5:{r}")
        if r == "unsat":
            best = dict(status="valid", backend="cvc5")
        elif r == "sat" and not quant:
            best = dict(status="sat", backend="cvc5", model="(cvc5 reports sat)")
    if best is None:
        best = dict(status="unknown", backend="-", model="; ".join(tried))
    best["tried"] = tried
    best["time"] = time.time() - t0
    return best


def dag_size(f, memo={}):
    k = f.get_id()
    if k in memo:
        return memo[k][0]
    seen, todo = set(), [f]
    while todo and len(seen) < 1000:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        else:
            todo.extend(x.children())
    memo[k] = (len(seen), f)
    return len(seen)


def cvc5_try(fs, neg, tmo):
    s = z3.Solver()
    s.add(*fs)
    s.add(neg)
    txt = s.to_smt2()
    txt = "(set-logic ALL)\n" + "\n".join(l for l in txt.splitlines() if not l.startswith("(set-info") and not l.startswith("; "))
    if "seq." in txt:
        return "skip"
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(txt)
        p = f.name
    try:
        o = subprocess.run(
            ["cvc5", f"--tlimit={int(tmo * 1000)}", "--nl-ext-tplanes", p],
            capture_output=True, text=True, timeout=tmo + 5,
        )
        out = (o.stdout or "").strip().splitlines()
        return out[0] if out and out[0] in ("sat", "unsat", "unknown") else "err"
    except Exception:
        return "err"
    finally:
        os.unlink(p)


def discharge(obls, tmo=10.0, nproc=None, deadline=None):
    """solve every obligation; results in the same order"""
    nproc = nproc or NPROC
    n = len(obls)
    if n == 0:
        return []
    res = [None] * n
    # one process per obligation: each starts from the same state, whatever was
    # solved before
    sys.stdout.flush()
    live = {}
    k = 0
    sel = selectors.DefaultSelector()
    while k < n or live:
        while k < n and len(live) < nproc:
            r, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    if deadline and time.time() > deadline:
                        d = dict(status="unknown", backend="-", model="time budget", time=0.0, tried=[])
                    else:
                        d = one(obls[k], tmo, {})
                    with os.fdopen(wr, "wb") as out:
                        pickle.dump(d, out)
                except BaseException:
                    import traceback
                    traceback.print_exc()
                    code = 1
                finally:
                    os._exit(code)
            os.close(wr)
            live[r] = (k, pid, [])
            sel.register(r, selectors.EVENT_READ)
            k += 1
        for key, _ in sel.select():
            r = key.fd
            chunk = os.read(r, 1 << 16)
            if chunk:
                live[r][2].append(chunk)
                continue
            j, pid, got = live.pop(r)
            sel.unregister(r)
            os.close(r)
            os.waitpid(pid, 0)
            try:
                res[j] = pickle.loads(b"".join(got))
            except Exception:
                pass
    sel.close()
    for k in range(n):
        if res[k] is None:
            res[k] = dict(status="unknown", backend="-", model="solver process died", time=0.0, tried=[])
    return res
