"""vpy: a deductive verifier for the Python/NumPy/numba subset used by neutralocean.

The functions are parsed from /repo on every run and executed symbolically:
 * every loop is cut at its head by the invariants of a sidecar contract,
 * a call of a function that has a modular contract is replaced by that contract
   (precondition asserted, postcondition assumed), any other repository function
   is inlined from its current source,
 * every array access, scalar division, precondition, invariant and postcondition
   becomes a named obligation, decided by an SMT solver (solve.py).
"""
import ast, copy
import re
import os
from fractions import Fraction
import z3

from . import values as V
from .values import *  # noqa
from .values import Unsupported

REPO = os.environ.get("VERIF_REPO", "/repo")


# ----------------------------------------------------------------- code objects
class ModRef:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"ModRef({self.name})"


class Builtin:
    """a name in an external module (numpy, numba, builtins ...)"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"Builtin({self.name})"

    def __eq__(self, o):
        return isinstance(o, Builtin) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class RepoFunc:
    def __init__(self, mod, node, env=None, qual=None):
        self.mod = mod
        self.node = node
        self.env = env  # closure variables
        self.qual = qual or getattr(node, "name", "<lambda>")

    @property
    def key(self):
        return (self.mod.path, self.qual)

    def __repr__(self):
        return f"RepoFunc({self.mod.path}:{self.qual})"


class OpaqueFn:
    """An uninterpreted pure function, used for function-valued parameters.

    spec(ex, st, args) -> value"""

    def __init__(self, name, spec):
        self.name = name
        self.spec = spec

    def __repr__(self):
        return f"OpaqueFn({self.name})"


class Opaque:
    """A value the verifier knows nothing about."""

    def __init__(self, tag):
        self.tag = tag

    def __repr__(self):
        return f"Opaque({self.tag})"


class Undef:
    def __init__(self, why=""):
        self.why = why


class MaybeDef:
    """value defined only when flag holds"""

    def __init__(self, flag, val):
        self.flag = flag
        self.val = val


class PyDict(dict):
    """python dict; loopvar: the keys whose values change in an enclosing loop"""

    loopvar = frozenset()
    depth = 0


def copy_obj(v, memo):
    """mutable containers belong to one state"""
    t = type(v)
    if t is PyDict:
        if id(v) not in memo:
            n = PyDict()
            n.loopvar, n.depth = v.loopvar, v.depth
            memo[id(v)] = n
            for k, x in v.items():
                n[k] = copy_obj(x, memo)
        return memo[id(v)]
    if t is list:
        if id(v) not in memo:
            n = []
            memo[id(v)] = n
            n.extend(copy_obj(x, memo) for x in v)
        return memo[id(v)]
    if t is tuple:
        n = tuple(copy_obj(x, memo) for x in v)
        return n if any(a is not b for a, b in zip(n, v)) else v
    if isinstance(v, StateObj):
        if id(v) not in memo:
            n = copy.copy(v)
            memo[id(v)] = n
            n.fields = copy_obj(v.fields, memo)
        return memo[id(v)]
    return v


class StateObj:
    """a mutable object with fields (a PyDict), part of one state"""

    fields = None


class Raises(Exception):
    """evaluation raises this python exception"""


class PyList:
    """mutable python list of scalars: stored in the heap like an array"""


class RangeV:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class NdIndex:
    def __init__(self, shape):
        self.shape = shape


class Method:
    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class ForkNeeded(Exception):
    def __init__(self, payloads):
        self.payloads = payloads


# ----------------------------------------------------------------- modules
class DeadPath(Exception):
    """evaluation never completes: a call in it always raises"""


class Module:
    def __init__(self, repo, path):
        self.repo = repo
        self.path = path  # relative to REPO
        with open(os.path.join(REPO, path), encoding="utf-8") as f:
            self.src = f.read()
        self.tree = ast.parse(self.src)
        self.defs = {}
        self.assigns = {}
        self.imports = {}
        for s in self.tree.body:
            self._toplevel(s)
        self.cache = {}

    def _toplevel(self, s):
        if isinstance(s, ast.FunctionDef):
            self.defs[s.name] = s
        elif isinstance(s, ast.ClassDef):
            self.defs[s.name] = s
        elif isinstance(s, ast.Assign):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self.assigns[t.id] = s.value
                elif isinstance(t, ast.Tuple):
                    for k, e in enumerate(t.elts):
                        if isinstance(e, ast.Name):
                            self.assigns[e.id] = ast.Subscript(
                                value=s.value, slice=ast.Constant(value=k), ctx=ast.Load()
                            )
        elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value:
            self.assigns[s.target.id] = s.value
        elif isinstance(s, ast.Import):
            for a in s.names:
                self.imports[a.asname or a.name.split(".")[0]] = (
                    "mod",
                    a.name if a.asname else a.name.split(".")[0],
                )
        elif isinstance(s, ast.ImportFrom):
            base = s.module or ""
            if s.level:
                d = os.path.dirname(self.path)
                for _ in range(s.level - 1):
                    d = os.path.dirname(d)
                base = d.replace("/", ".") + ("." + s.module if s.module else "")
            for a in s.names:
                self.imports[a.asname or a.name] = ("from", base, a.name)
        elif isinstance(s, (ast.If, ast.Try)):
            for b in s.body + s.orelse:
                self._toplevel(b)


class Repo:
    def __init__(self):
        self.mods = {}

    def mod(self, path):
        if path not in self.mods:
            self.mods[path] = Module(self, path)
        return self.mods[path]

    def dotted(self, name):
        """'neutralocean.fzero' -> Module or None"""
        p = name.replace(".", "/")
        for cand in (p + ".py", p + "/__init__.py"):
            if os.path.exists(os.path.join(REPO, cand)):
                return self.mod(cand)
        return None

    def lookup(self, mod, name, depth=0):
        """resolve a global name of a module -> value or raise KeyError"""
        if depth > 6:
            raise KeyError(name)
        if name in mod.defs:
            n = mod.defs[name]
            if isinstance(n, ast.ClassDef):
                return Opaque("class " + name)
            return RepoFunc(mod, n)
        if name in mod.imports:
            im = mod.imports[name]
            if im[0] == "mod":
                m = self.dotted(im[1]) if im[1].startswith("neutralocean") else None
                return m or ModRef(im[1])
            _, base, nm = im
            if base.startswith("neutralocean"):
                m = self.dotted(base)
                if m is None:
                    return Opaque(f"{base}.{nm}")
                try:
                    return self.lookup(m, nm, depth + 1)
                except KeyError:
                    sub = self.dotted(base + "." + nm)
                    if sub:
                        return sub
                    raise
            return Builtin(base + "." + nm)
        raise KeyError(name)


# ----------------------------------------------------------------- state
class Frame:
    __slots__ = ("vars", "mod", "fn", "id")

    def __init__(self, mod, fn, vars=None, id=0):
        self.mod, self.fn, self.vars, self.id = mod, fn, vars or {}, id

    def copy(self, memo=None):
        memo = {} if memo is None else memo
        f = Frame(self.mod, self.fn, {k: copy_obj(v, memo) for k, v in self.vars.items()}, self.id)
        return f


class State:
    __slots__ = ("pc", "frames", "heap", "choices", "cpos", "ghost")

    def __init__(self):
        self.pc = []
        self.frames = []
        self.heap = {}
        self.choices = []
        self.cpos = 0
        self.ghost = {}

    def copy(self, memo=None):
        s = State()
        s.pc = list(self.pc)
        memo = {} if memo is None else memo
        s.frames = [f.copy(memo) for f in self.frames]
        s.heap = dict(self.heap)
        s.choices = self.choices
        s.cpos = self.cpos
        s.ghost = dict(self.ghost)
        return s

    def become(self, o):
        self.pc = list(o.pc)
        memo = {}
        self.frames = [f.copy(memo) for f in o.frames]
        self.heap = dict(o.heap)
        self.ghost = dict(o.ghost)
        return memo

    def assume(self, f):
        if isinstance(f, bool):
            if not f:
                self.pc.append(z3.BoolVal(False))
            return
        if z3.is_and(f):
            for c in f.children():
                self.assume(c)
            return
        self.pc.append(f)


class Obligation:
    __slots__ = ("name", "kind", "pc", "goal", "loc", "cand", "hints", "axioms")

    def __init__(self, name, kind, pc, goal, loc, cand=None, hints=None, axioms=()):
        self.name, self.kind, self.pc, self.goal, self.loc = name, kind, pc, goal, loc
        self.cand = cand
        self.hints = hints or {}
        self.axioms = axioms


def symbols_of(v, st, depth=0):
    """names of the uninterpreted symbols a value is made of"""
    if depth > 6:
        return set()
    if z3.is_expr(v):
        out, todo, done = set(), [v], set()
        while todo:
            e = todo.pop()
            if e.get_id() in done:
                continue
            done.add(e.get_id())
            if z3.is_quantifier(e):
                todo.append(e.body())
            elif z3.is_app(e):
                if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(e.decl().name())
                todo.extend(e.children())
        return out
    if isinstance(v, F):
        return set().union(*[symbols_of(z3.simplify(x), st) for x in (v.n, v.v) if z3.is_expr(x)])
    if isinstance(v, (tuple, list)):
        return set().union(*[symbols_of(x, st, depth + 1) for x in v]) if v else set()
    if isinstance(v, dict):
        return set().union(*[symbols_of(x, st, depth + 1) for x in v.values()]) if v else set()
    if isinstance(v, Arr):
        out = set().union(*[symbols_of(x, st) for x in v.shape]) if v.shape else set()
        if v.cell not in st.heap:
            return out
        idx = tuple(z3.Int(f"ix!{i}") for i in range(len(v.shape)))
        return out | (symbols_of(st.heap[v.cell].get(v.imap(idx) if v.imap else idx), st) - {f"ix!{i}" for i in range(len(v.shape))})
    if isinstance(v, Content):
        idx = tuple(z3.Int(f"ix!{i}") for i in range(len(v.shape)))
        return symbols_of(v.get(idx), st) - {f"ix!{i}" for i in range(len(v.shape))}
    if isinstance(v, MaybeDef):
        return symbols_of(v.flag, st) | symbols_of(v.val, st, depth + 1)
    return set()


class LoopSpec:
    """inv(c) -> list of (label, formula); step(before, after): what one pass
    through the body does (from its start to its normal end); alone: arrays whose
    entry at the running index must depend on nothing that an earlier pass computed"""

    def __init__(self, inv, name=None, ghost=None, step=None, alone=()):
        self.inv = inv
        self.alone = alone
        self.step = step
        self.name = name
        self.ghost = ghost


class Contract:
    """Base class of sidecar contracts (see contracts/*.py)"""

    path = None
    func = None
    name = None
    loops = ()
    modular = True  # callers use the contract instead of inlining
    numba = True  # scalar division by zero raises
    allow_raise = False
    must_raise = None  # names of exception classes: every path must raise one of them
    wrap_neg = True
    unroll = 8
    options = {}
    check_div = True
    fork_calls = True

    @property
    def unit(self):
        return self.name or f"{self.path}:{self.func}"

    # --- verification side
    def setup(self, ex, st):
        """-> dict param name -> value; may st.assume(...)"""
        raise NotImplementedError

    def requires(self, c):
        return []

    def ensures(self, c):
        return []

    # --- call side
    def result(self, ex, st, c):
        """fresh result value; may havoc arrays"""
        raise NotImplementedError

    def raises(self, c):
        """condition under which an exception is allowed"""
        return self.allow_raise


class Lemma(Contract):
    """A statement over the specification functions only (no code): used to derive
    a property from the contracts.  lemmas() -> list of (label, hypotheses, goal)"""

    modular = False
    path = "lemma"

    def lemmas(self):
        raise NotImplementedError


class Ctx:
    """what contract clauses see"""

    locals = None  # body check only: the local variables at the return

    def __init__(self, ex, st, old=None, res=None, pre=None, frame=None, extra=None, rename=None):
        self.ex, self.st, self.old, self.res, self.pre = ex, st, old, res, pre
        self.frame = frame
        self.extra = extra or {}
        self.rename = rename or {}

    def raw(self, name):
        if name in self.extra:
            return self.extra[name]
        if self.frame is not None:
            if name in self.frame:
                return self.frame[name]
            raise KeyError(name)
        nm = self.rename.get(name, name)
        for fr in reversed(self.st.frames):
            if nm in fr.vars:
                return fr.vars[nm]
        if nm != name:
            for fr in reversed(self.st.frames):
                if name in fr.vars:
                    return fr.vars[name]
        raise KeyError(name)

    def __getitem__(self, name):
        v = self.raw(name)
        return self.view(v)

    def has(self, name):
        try:
            v = self.raw(name)
        except KeyError:
            return False
        return not isinstance(v, Undef)

    def view(self, v):
        if isinstance(v, MaybeDef):
            return self.view(v.val)
        if isinstance(v, Undef):
            raise KeyError("undefined")
        if isinstance(v, Arr):
            return ArrV(self.st.heap[v.cell], v.shape, v.imap)
        if isinstance(v, tuple):
            return tuple(self.view(x) for x in v)
        if isinstance(v, PyDict):
            return {k: self.view(x) for k, x in v.items()}
        if isinstance(v, StateObj):
            return v.view_model(self)
        return v

    def isdef(self, name):
        v = self.raw(name)
        if isinstance(v, MaybeDef):
            return v.flag
        return not isinstance(v, Undef)

    def app(self, fn, *args):
        """value of a pure function at args, in this state, no obligations"""
        if isinstance(fn, str):
            fn = self.raw(fn)
        return self.ex.pure_call(self.st, fn, args)


class Snapshot(dict):
    """values of parameters at entry (arrays as ArrV snapshots)"""

    def r(self, k):
        return self[k]


def snapshot(ex, st, vals):
    c = Ctx(ex, st, frame=vals)
    out = Snapshot()
    for k, v in vals.items():
        try:
            out[k] = c.view(v)
        except KeyError:
            pass
    return out


def has_quant(e, memo={}):
    seen = set()
    stack = [e]
    while stack:
        x = stack.pop()
        if z3.is_quantifier(x):
            return True
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        stack.extend(x.children())
    return False


def nonlinear_any(e):
    seen = set()
    stack = [e]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_app(x):
            k = x.decl().kind()
            if k == z3.Z3_OP_MUL and z3.is_real(x) and sum(not z3.is_rational_value(c) for c in x.children()) > 1:
                return True
            if k == z3.Z3_OP_DIV and not z3.is_rational_value(x.arg(1)):
                return True
        stack.extend(x.children())
    return False


def nonlinear(e):
    """does the term contain a product of two non-numerals (not under an UF)?"""
    if z3.is_app(e):
        k = e.decl().kind()
        ch = e.children()
        if k == z3.Z3_OP_MUL and sum(not z3.is_rational_value(c) for c in ch) > 1:
            return True
        if k == z3.Z3_OP_DIV and not z3.is_rational_value(ch[1]):
            return True
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL, z3.Z3_OP_ITE):
            return any(nonlinear(c) for c in ch)
    return False


def dict_stores(stmts):
    """name -> keys k of the stores name["k"] = .. in the statements"""
    out = {}
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str):
                out.setdefault(n.value.id, set()).add(n.slice.value)
    return {k: frozenset(v) for k, v in out.items()}


def assigned_names(stmts):
    out = set()

    def tgt(t):
        if isinstance(t, ast.Name):
            out.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                tgt(e)
        elif isinstance(t, ast.Starred):
            tgt(t.value)

    class W(ast.NodeVisitor):
        def visit_Assign(self, n):
            for t in n.targets:
                tgt(t)
            self.generic_visit(n)

        def visit_AugAssign(self, n):
            tgt(n.target)
            self.generic_visit(n)

        def visit_AnnAssign(self, n):
            tgt(n.target)
            self.generic_visit(n)

        def visit_For(self, n):
            tgt(n.target)
            self.generic_visit(n)

        def visit_NamedExpr(self, n):
            tgt(n.target)
            self.generic_visit(n)

        def visit_With(self, n):
            for it in n.items:
                if it.optional_vars is not None:
                    tgt(it.optional_vars)
            self.generic_visit(n)

        def visit_FunctionDef(self, n):
            out.add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass

        visit_GeneratorExp = visit_SetComp = visit_DictComp = visit_ListComp

    w = W()
    for s in stmts:
        w.visit(s)
    return out


class Budget(Exception):
    pass


class Exec:
    MAXSTATES = 4000

    def __init__(self, repo, registry, contract, disabled=frozenset(), rename=None):
        self.repo = repo
        self.registry = registry  # (path, func) -> Contract (modular)
        self.contract = contract
        self.disabled = disabled
        self.rename = rename or {}
        self.obls = []
        self.obl_keys = set()
        self.axioms = []
        self.axiom_keys = set()
        self.loop_ids = {}
        self.quiet = 0
        self.cellc = 0
        self.writes = []  # stack of sets
        self.notes = set()
        self.called = set()  # contracts used
        self.inlined = set()
        self.feas = {}
        self.depth = 0
        self.entry = None
        self.symc = 0
        self.flow = {}  # symbol made by a call -> symbols of its arguments
        self.live_points = []  # canaries
        self.bad_inv = set()
        self.nstates = 0

    # ---- naming: deterministic within a run
    def nm(self, base):
        self.symc += 1
        return f"{base}!{self.symc}"

    def unm(self, base):
        """a name that is never given twice, for symbols that axioms speak of
        (the numbering of nm starts over when a statement is replayed)"""
        self.unic = getattr(self, "unic", 0) + 1
        return f"{base}!u{self.unic}"

    def fresh_like(self, v, base="h"):
        if isinstance(v, bool) or (z3.is_expr(v) and z3.is_bool(v)):
            return z3.Bool(self.nm(base))
        if is_int(v):
            return z3.Int(self.nm(base))
        if isinstance(v, (F, float, Fraction, PInf)):
            n = self.nm(base)
            return F(z3.Bool(n + ".nan"), z3.Real(n))
        if isinstance(v, tuple):
            return tuple(self.fresh_like(x, base) for x in v)
        raise Unsupported(f"cannot havoc {v!r}")

    def new_cell(self, st, content):
        self.cellc += 1
        c = f"c{self.cellc}"
        st.heap[c] = content
        return c

    def repo_fn(self, path, qual):
        """a function of the repository as a value"""
        mod = self.repo.mod(path)
        node = find_def(mod, qual)
        if node is None:
            raise Unsupported(f"function {qual} not found in {path}")
        return RepoFunc(mod, node, qual=qual)

    def new_arr(self, st, content):
        return Arr(self.new_cell(st, content), content.shape)

    def fresh_arr(self, st, base, shape, kind, nan=True, name=None):
        return self.new_arr(st, fresh_content(base, shape, kind, nan, name=name or self.nm(base)))

    def axiom(self, f, about=()):
        if isinstance(f, bool):
            return
        if about:
            from . import solve

            solve.about(f, *about)
        k = f.get_id()
        if k not in self.axiom_keys:
            self.axiom_keys.add(k)
            self.axioms.append(f)

    # ---- obligations
    def oblige(self, st, kind, label, goal, loc, cand=None):
        from .algebra import AlgGoal

        if isinstance(goal, AlgGoal):
            if not self.quiet:
                self.obls.append(Obligation(f"{self.contract.unit}#{kind}:{label}@{loc}", kind, [], goal, loc, cand, axioms=self.axioms))
            return
        if self.quiet:
            st.assume(goal)
            return
        if isinstance(goal, bool):
            if goal and kind != "post":
                return
            # a clause of a contract decided by the execution itself counts as an obligation
            goal = z3.BoolVal(goal)
        key = (kind, label, goal.get_id(), tuple(p.get_id() for p in st.pc))
        if key not in self.obl_keys:
            self.obl_keys.add(key)
            name = f"{self.contract.unit}#{kind}:{label}@{loc}"
            self.obls.append(
                Obligation(name, kind, list(st.pc), goal, loc, cand, axioms=self.axioms)
            )
        if kind not in ("post", "inv-init", "inv-pres", "canary", "step"):
            st.assume(goal)

    def feasible(self, st):
        """cheap check; quantifier-free part only"""
        qf = [p for p in st.pc if not self._hq(p)]
        key = tuple(sorted(p.get_id() for p in qf))
        r = self.feas.get(key)
        if r is None:
            s = z3.Solver()
            s.set("timeout", 150)
            s.add(*qf)
            r = s.check() != z3.unsat
            self.feas[key] = (r, qf)
            return r
        return r[0]

    def _hq(self, p):
        d = self.__dict__.setdefault("_hqm", {})
        i = p.get_id()
        if i not in d:
            d[i] = (has_quant(p), p)
        return d[i][0]

    def entails(self, st, f, timeout=200):
        if isinstance(f, bool):
            return f
        s = z3.Solver()
        s.set("timeout", timeout)
        s.add(*[p for p in st.pc if not self._hq(p)])
        s.add(z3.Not(f))
        if s.check() == z3.unsat:
            return True
        if not self.contract.options.get("strong"):
            return False
        # with the quantified facts, by e-matching
        key = (f.get_id(), tuple(p.get_id() for p in st.pc))
        tab = self.__dict__.setdefault("strong", {})
        if key not in tab:
            s = z3.SimpleSolver()
            s.set("auto_config", False)
            s.set("mbqi", False)
            s.set("timeout", 500)
            s.add(*st.pc)
            s.add(z3.Not(f))
            tab[key] = (s.check() == z3.unsat, f, list(st.pc))
        return tab[key][0]

    def loc(self, node, st=None):
        ln = getattr(node, "lineno", 0)
        fn = st.frames[-1].fn if st and st.frames else ""
        return f"{fn}:{ln}"

    # ------------------------------------------------------------ top level
    def run(self):
        c = self.contract
        if isinstance(c, Lemma):
            self.pre_pc = []
            for label, hyp, goal in c.lemmas():
                s = State()
                for f in hyp:
                    s.assume(f)
                self.live_points.append((label, list(s.pc)))
                self.oblige(s, "lemma", label, goal, c.name)
            return []
        mod = self.repo.mod(c.path)
        node = find_def(mod, c.func)
        if node is None:
            raise Unsupported(f"function {c.func} not found in {c.path}")
        self.node = node
        fn = RepoFunc(mod, node, qual=c.func)
        check_decorators(self, mod, node)
        st = State()
        st.frames.append(Frame(mod, c.func, {}))
        params = c.setup(self, st)
        called = c.options.get("called")
        if not called:
            bound = self.bind(fn, params, st)
            st.frames[-1].vars.update(bound)
        clos = getattr(c, "closure", None)
        if clos:
            st.frames[-1].vars.update(clos(self, st))
        self.entry_vals = dict(params)
        self.entry = snapshot(self, st, params)
        self.params = params
        ctx = Ctx(self, st, old=self.entry, frame=params)
        for label, f in named(c.requires(ctx)):
            st.assume(f)
        self.pre_pc = list(st.pc)
        if called:
            # the function as its callers see it (guvectorize'd: the broadcasting wrapper)
            outs = [("return", s, v) for s, v in self.with_forks(st, lambda s: self.call(fn, list(params.values()), {}, s, node))]
        else:
            outs = self.block(node.body, st)
        nret = 0
        for kind, s, val in outs:
            if kind == "next":
                kind, val = "return", None
            if kind == "return":
                nret += 1
                ctx = Ctx(self, s, old=self.entry, res=val, frame=params)
                ctx.res = ctx.view(val) if not isinstance(val, Undef) else None
                ctx.rawres = val
                ctx.locals = Ctx(self, s, old=self.entry, rename=self.rename)
                if c.must_raise is None:
                    self.live_points.append(("return", list(s.pc)))
                if c.must_raise is not None:
                    self.oblige(s, "post", "returns-instead-of-raising", False, f"{c.func}:return")
                    continue
                for label, f in named(c.ensures(ctx)):
                    self.oblige(s, "post", label, f, f"{c.func}:return")
            elif kind == "raise":
                ctx = Ctx(self, s, old=self.entry, frame=params)
                ok = c.raises(ctx)
                if c.must_raise is not None:
                    # the exception is the contract: its class is the obligation
                    ok = True
                    self.live_points.append(("raise", list(s.pc)))
                    self.oblige(s, "post", "raises", z3.BoolVal(any(x in str(val) for x in c.must_raise)), f"{c.func}:raise")
                if ok is not True:
                    self.oblige(s, "no-raise", f"raise-{val}", ok, f"{c.func}:raise")
            else:
                raise Unsupported(kind + " outside loop")
        if nret == 0:
            self.notes.add("no return reached")
        return outs

    def bind(self, fn, given, st):
        """map contract parameter names onto the current signature by position"""
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        gl = list(given.items())
        byname = {}
        for i, (k, v) in enumerate(gl):
            if k in names or (a.vararg and a.vararg.arg == k) or (a.kwarg and a.kwarg.arg == k) or k in [x.arg for x in a.kwonlyargs]:
                byname[k] = v
            elif i < len(names) and names[i] not in given:
                byname[names[i]] = v
                self.rename.setdefault(k, names[i])
            else:
                raise Unsupported(f"parameter {k} of {fn.qual} not found")
        out.update(byname)
        # defaults
        nd = len(a.defaults)
        for i, d in enumerate(a.defaults):
            n = names[len(names) - nd + i]
            if n not in out:
                out[n] = self.eval(d, st)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in out and d is not None:
                out[x.arg] = self.eval(d, st)
        for n in names:
            if n not in out:
                raise Unsupported(f"parameter {n} of {fn.qual} has no value in the contract")
        return out

    # ------------------------------------------------------------ statements
    def with_forks(self, st, fn):
        """run fn(state) -> value, replaying it when a choice is met"""
        res = []
        pend = [[]]
        mark = (self.symc, self.cellc)
        while pend:
            ch = pend.pop()
            s = st.copy()
            s.choices = ch
            s.cpos = 0
            self.symc, self.cellc = mark
            try:
                v = fn(s)
                s.choices = []
                s.cpos = 0
                res.append((s, v))
            except ForkNeeded as f:
                for p in reversed(f.payloads):
                    pend.append(ch + [p])
            except DeadPath:
                pass
            self._top = max(getattr(self, "_top", 0), self.symc)
        return res

    def choose(self, st, make):
        """make() -> list of payloads (anything). Returns the chosen payload."""
        if st.cpos < len(st.choices):
            p = st.choices[st.cpos]
            st.cpos += 1
            self.symc, self.cellc = p[1]
            return p[0]
        pls = make()
        after = (self.symc, self.cellc)
        if len(pls) == 1:
            # no fork, but remember to keep replays aligned
            pass
        raise ForkNeeded([(p, after) for p in pls])

    def block(self, stmts, st):
        outs = []
        states = [st]
        for i, s in enumerate(stmts):
            if len(states) > 1 and (
                isinstance(s, (ast.While, ast.For)) or self.contract.options.get("merge")
            ):
                states = self.merge_states(states)
            nxt = []
            for x in states:
                for o in self.stmt(s, x):
                    if o[0] == "next":
                        nxt.append(o[1])
                    else:
                        outs.append(o)
            self.nstates += len(nxt)
            if self.nstates > self.MAXSTATES:
                raise Unsupported("too many symbolic states")
            states = nxt
            if not states:
                break
        outs.extend(("next", x, None) for x in states)
        return outs

    def merge_states(self, states):
        """merge states pairwise where their values are mergeable"""
        out = [states[0]]
        for s in states[1:]:
            for i, o in enumerate(out):
                try:
                    out[i] = self.merge2(o, s)
                    break
                except Unsupported:
                    continue
            else:
                out.append(s)
        return out

    def merge2(self, a, b):
        n = 0
        while n < len(a.pc) and n < len(b.pc) and a.pc[n].eq(b.pc[n]):
            n += 1
        ca, cb = AND(*a.pc[n:]), AND(*b.pc[n:])
        if len(a.frames) != len(b.frames):
            raise Unsupported("frames")
        # selector: prefer the syntactic condition that distinguishes the paths
        sel = ca
        if n < len(a.pc) and n < len(b.pc):
            x, y = a.pc[n], b.pc[n]
            if NOT(x).eq(y) if z3.is_expr(NOT(x)) else False:
                sel = x
            elif z3.is_not(x) and x.arg(0).eq(y):
                sel = x
        m = State()
        m.pc = list(a.pc[:n])
        m.assume(OR(ca, cb))
        m.ghost = dict(a.ghost)
        for k in b.ghost:
            if k not in m.ghost or not same_val(m.ghost[k], b.ghost[k]):
                raise Unsupported("ghost merge")
        heap = {}
        for c in set(a.heap) | set(b.heap):
            if c not in a.heap:
                heap[c] = b.heap[c]
            elif c not in b.heap:
                heap[c] = a.heap[c]
            elif a.heap[c] is b.heap[c]:
                heap[c] = a.heap[c]
            else:
                heap[c] = self.merge_content(sel, a.heap[c], b.heap[c])
        m.heap = heap
        for fa, fb in zip(a.frames, b.frames):
            f = Frame(fa.mod, fa.fn, {}, fa.id)
            for k in set(fa.vars) | set(fb.vars):
                va = fa.vars.get(k, Undef())
                vb = fb.vars.get(k, Undef())
                f.vars[k] = self.merge_val(sel, va, vb, m)
            m.frames.append(f)
        return m

    def merge_content(self, c, x, y):
        if len(x.shape) != len(y.shape) or x.kind != y.kind:
            raise Unsupported("array merge")
        shape = tuple(ITE(c, i, j) for i, j in zip(x.shape, y.shape))
        return Content(shape, x.kind, lambda idx: ITE(c, x.get(idx), y.get(idx)))

    def merge_val(self, c, a, b, st=None):
        if a is b:
            return a
        if isinstance(a, Undef) and isinstance(b, Undef):
            return a
        if isinstance(a, (MaybeDef, Undef)) or isinstance(b, (MaybeDef, Undef)):
            def split(x):
                if isinstance(x, MaybeDef):
                    return x.flag, x.val
                if isinstance(x, Undef):
                    return False, None
                return True, x
            fa, va = split(a)
            fb, vb = split(b)
            flag = ITE(c, fa, fb)
            if va is None:
                return MaybeDef(flag, vb)
            if vb is None:
                return MaybeDef(flag, va)
            return MaybeDef(flag, self.merge_val(c, va, vb, st))
        if same_val(a, b):
            return a
        if is_num(a) and is_num(b):
            return ITE(c, a, b)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.merge_val(c, x, y, st) for x, y in zip(a, b))
        if isinstance(a, Arr) and isinstance(b, Arr) and a.cell == b.cell and a.imap is None and b.imap is None:
            return a
        if type(a) is PyDict and type(b) is PyDict and list(a) == list(b) and a.loopvar == b.loopvar:
            d = PyDict()
            d.loopvar, d.depth = a.loopvar, a.depth
            for k in a:
                d[k] = self.merge_val(c, a[k], b[k], st)
            return d
        if type(a) is list and type(b) is list and len(a) == len(b):
            return [self.merge_val(c, x, y, st) for x, y in zip(a, b)]
        if isinstance(a, StateObj) and type(a) is type(b):
            n = copy.copy(a)
            n.fields = self.merge_val(c, a.fields, b.fields, st)
            return n
        raise Unsupported(f"merge {a!r} {b!r}")

    # each returns list of (kind, state, value)
    def stmt(self, s, st):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__} line {s.lineno}")
        return m(s, st)

    def simple(self, st, fn):
        return [("next", s, None) for s, _ in self.with_forks(st, fn)]

    def s_Pass(self, s, st):
        return [("next", st, None)]

    def s_Import(self, s, st):
        return [("next", st, None)]

    s_ImportFrom = s_Global = s_Nonlocal = s_Import

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return [("next", st, None)]
        return self.simple(st, lambda x: self.eval(s.value, x))

    def s_Assign(self, s, st):
        def f(x):
            v = self.eval(s.value, x)
            for t in s.targets:
                self.assign(t, v, x)
        return self.simple(st, f)

    def s_AnnAssign(self, s, st):
        if s.value is None:
            return [("next", st, None)]
        return self.simple(st, lambda x: self.assign(s.target, self.eval(s.value, x), x))

    def s_AugAssign(self, s, st):
        def f(x):
            t = s.target
            if isinstance(t, ast.Name):
                cur = self.eval(ast.copy_location(ast.Name(id=t.id, ctx=ast.Load()), t), x)
                val = self.eval(s.value, x)
                new = self.binop(type(s.op).__name__, cur, val, x, s)
                if isinstance(cur, Arr):  # in-place
                    self.write_all(x, cur, new, s)
                else:
                    x.frames[-1].vars[t.id] = new
            elif isinstance(t, ast.Subscript):
                base = self.eval(t.value, x)
                idx = self.eval_index(t.slice, x)
                cur = self.getitem(base, idx, x, s)
                val = self.eval(s.value, x)
                new = self.binop(type(s.op).__name__, cur, val, x, s)
                self.setitem(base, idx, new, x, s)
            else:
                raise Unsupported("augassign target")
        return self.simple(st, f)

    def s_Return(self, s, st):
        if s.value is None:
            return [("return", st, None)]
        return [("return", x, v) for x, v in self.with_forks(st, lambda x: self.eval(s.value, x))]

    def s_Raise(self, s, st):
        nm = "exception"
        e = s.exc
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name):
            nm = e.func.id
        elif isinstance(e, ast.Name):
            nm = e.id
        return [("raise", st, nm)]

    def s_Assert(self, s, st):
        outs = []
        for x, v in self.with_forks(st, lambda x: self.truth(self.eval(s.test, x), x)):
            y = x.copy()
            y.assume(NOT(v))
            if self.feasible(y):
                outs.append(("raise", y, "AssertionError"))
            x.assume(v)
            outs.append(("next", x, None))
        return outs

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.frames[-1].vars[t.id] = Undef("deleted")
            else:
                raise Unsupported("del")
        return [("next", st, None)]

    def s_Break(self, s, st):
        return [("break", st, None)]

    def s_Continue(self, s, st):
        return [("continue", st, None)]

    def s_FunctionDef(self, s, st):
        st.frames[-1].vars[s.name] = RepoFunc(
            st.frames[-1].mod, s, env=("frame", len(st.frames) - 1),
            qual=st.frames[-1].fn + ".<locals>." + s.name,
        )
        return [("next", st, None)]

    def s_With(self, s, st):
        def f(x):
            for it in s.items:
                if not isinstance(it.context_expr, ast.Call):
                    raise Unsupported("with")
                cn = ast.unparse(it.context_expr.func)
                if cn not in ("np.errstate", "numpy.errstate", "warnings.catch_warnings"):
                    raise Unsupported("with " + cn)
        f(st)
        return self.block(s.body, st)

    def s_Try(self, s, st):
        """the body must not raise implicitly (bounds, types: obligations as
        anywhere else); an explicit raise goes to the first matching handler"""
        if s.finalbody:
            raise Unsupported("finally")
        outs = []
        for kind, x, v in self.try_body(s.body, st):
            if kind == "raise":
                for h in s.handlers:
                    names = [] if h.type is None else [ast.unparse(t) for t in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
                    if h.type is None or str(v) in names or "Exception" in names:
                        if h.name:
                            x.frames[-1].vars[h.name] = Opaque("exception")
                        outs.extend(self.block(h.body, x))
                        break
                else:
                    outs.append((kind, x, v))
            elif kind == "next" and s.orelse:
                outs.extend(self.block(s.orelse, x))
            else:
                outs.append((kind, x, v))
        return outs

    def try_body(self, body, st):
        """the statements one by one; what a simple statement raises while its values
        are computed happens before it has an effect"""
        if any(isinstance(x, (ast.For, ast.While, ast.Try, ast.With, ast.FunctionDef)) for x in body):
            return self.block(body, st)
        outs, live = [], [st]
        for stmt in body:
            nxt = []
            for x in live:
                keep = x.copy()
                try:
                    for o in self.block([stmt], x):
                        (nxt.append(o[1]) if o[0] == "next" else outs.append(o))
                except Raises as e:
                    if not isinstance(stmt, (ast.Assign, ast.Expr)):
                        raise Unsupported(f"{e} raised in a compound statement")
                    outs.append(("raise", keep, str(e)))
            live = nxt
        return outs + [("next", x, None) for x in live]

    def s_If(self, s, st):
        outs = []
        for x, v in self.with_forks(st, lambda x: self.truth(self.eval(s.test, x), x)):
            if isinstance(v, bool):
                outs.extend(self.block(s.body if v else s.orelse, x))
                continue
            y = x.copy()
            x.assume(v)
            y.assume(NOT(v))
            sub = []
            if self.feasible(x):
                sub.extend(self.block(s.body, x))
            if self.feasible(y):
                sub.extend(self.block(s.orelse, y))
            outs.extend(sub)
        return outs

    # ------------------------------------------------------------ loops
    def loop_spec(self, node):
        k = self.loop_ids.setdefault(id(node), len(self.loop_ids))
        self._keep = getattr(self, "_keep", [])
        self._keep.append(node)
        specs = self.contract.loops
        allmode = self.contract.options.get("pool") or self.pool_mode
        if allmode:
            return k, list(enumerate(specs))
        if k < len(specs):
            return k, [(k, specs[k])]
        return k, []

    pool_mode = False

    def invariants(self, k, specs, st, pre, extra):
        """-> list of (label, formula) currently enabled"""
        out = []
        for j, sp in specs:
            if sp is None:
                continue
            ctx = Ctx(self, st, old=self.entry, pre=pre, extra=extra, rename=self.rename)
            self.quiet += 1
            try:
                items = list(InvItems(sp.inv, ctx, self, (k, j)))
            finally:
                self.quiet -= 1
            for label, f in items:
                if (k, j, label) in self.disabled:
                    continue
                out.append(((k, j, label), f))
        if self.pool_mode and k in self.while_loops:
            if "#next" not in extra:
                out += self.counter_invariants(k, specs, st, pre, extra)
            else:
                out += self.running_invariants(k, st, pre, extra)
        return out

    def running_invariants(self, k, st, pre, extra):
        """candidates for a loop with a running value: it is the entry of an array of
        the loop at the index about to run"""
        node, names = self.while_loops[k]
        fr, fr0 = st.frames[-1].vars, pre.st.frames[-1].vars
        isint = lambda v: isinstance(v, (int, z3.ArithRef)) and not isinstance(v, bool) and not (z3.is_expr(v) and v.sort() != z3.IntSort())
        stored = {t.value.id for n in ast.walk(node) for t in (n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, ast.AugAssign) else [])
                  if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name)}
        out = []
        for v in sorted(names):
            if not (isint(fr.get(v)) and isint(fr0.get(v))):
                continue
            for a in sorted(stored):
                A = fr.get(a)
                if not (isinstance(A, Arr) and len(A.shape) == 1 and st.heap[A.cell].kind == "i"):
                    continue
                A = ArrV(st.heap[A.cell], A.shape, A.imap)
                lab = (k, "running." + v, a)
                if lab not in self.disabled:
                    out.append((lab, Z(fr[v]) == Z(A[Z(extra["#next"])])))
        return out

    def counter_invariants(self, k, specs, st, pre, extra):
        """candidates for a while loop that counts: the invariants of the loops under
        contract, with an integer variable of this loop as the index it is about to run"""
        node, names = self.while_loops[k]
        fr, fr0 = st.frames[-1].vars, pre.st.frames[-1].vars
        isint = lambda v: isinstance(v, (int, z3.ArithRef)) and not isinstance(v, bool) and not (z3.is_expr(v) and v.sort() != z3.IntSort())
        out = []
        for v in sorted(names):
            if not (isint(fr.get(v)) and isint(fr0.get(v))):
                continue
            x, x0 = Z(fr[v]), Z(fr0[v])
            cands = [("up", x >= x0), ("down", x <= x0)]
            for t in ast.walk(node.test):
                if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and t.left.id == v and isinstance(t.ops[0], (ast.Lt, ast.Gt, ast.NotEq)):
                    try:
                        self.quiet += 1
                        y = self.eval(t.comparators[0], st.copy())
                    except Unsupported:
                        continue
                    finally:
                        self.quiet -= 1
                    if isint(y):
                        cands += [("le", x <= Z(y)), ("ge", x >= Z(y))]
            for j, sp in specs:
                if sp is None:
                    continue
                ctx = Ctx(self, st, old=self.entry, pre=pre, extra={**extra, "#next": x, "#k": x - x0}, rename=self.rename)
                self.quiet += 1
                try:
                    cands += [(f"{j}.{l}", f) for l, f in InvItems(sp.inv, ctx, self, (k, j))]
                finally:
                    self.quiet -= 1
            for label, f in cands:
                lab = (k, "count." + v, label)
                if lab not in self.disabled:
                    out.append((lab, f))
        return out

    @property
    def while_loops(self):
        return self.__dict__.setdefault("_while_loops", {})

    def s_While(self, s, st):
        return self.loop(s, st, None)

    def s_For(self, s, st):
        outs = []
        for x, it in self.with_forks(st, lambda x: self.eval_iter(s.iter, x)):
            outs.extend(self.loop(s, x, it))
        return outs

    def eval_iter(self, e, st):
        return self.eval(e, st)

    def iter_items(self, it, st):
        """concrete iteration -> list of values or None"""
        if isinstance(it, RangeV):
            if all(isinstance(x, int) for x in (it.lo, it.hi, it.step)):
                r = range(it.lo, it.hi, it.step)
                if len(r) <= self.contract.unroll:
                    return list(r)
            return None
        if isinstance(it, (tuple, list)):
            return list(it)
        if isinstance(it, Arr) and isinstance(it.shape[0], int) and it.shape[0] <= self.contract.unroll:
            return [self.getitem(it, (k,), st, None) for k in range(it.shape[0])]
        if isinstance(it, PyDict):
            return list(it.keys())
        return None

    def loop(self, s, st, it):
        if it is not None:
            items = self.iter_items(it, st)
            if items is not None:
                return self.unrolled(s, st, items)
        k, specs = self.loop_spec(s)
        names = assigned_names(s.body)
        if isinstance(s, ast.For):
            names |= assigned_names([ast.For(target=s.target, iter=ast.Constant(value=0), body=[], orelse=[], lineno=0)])
        if isinstance(s, ast.While):
            names |= assigned_names([ast.Expr(value=s.test)])
        fr0 = st.frames[-1].vars
        pre = Pre(self, st)
        self.while_loops[k] = (s, names)
        # hidden iteration counter
        extra0 = {}
        if it is not None:
            if isinstance(it, RangeV):
                lo, hi, step = it.lo, it.hi, it.step
                if not isinstance(step, int) or step == 0:
                    raise Unsupported("range step")
                if abs(step) != 1:
                    raise Unsupported("range step other than 1, -1")
                n_it = SUB(hi, lo) if step == 1 else SUB(lo, hi)
                item = (lambda j: ADD(lo, j)) if step == 1 else (lambda j: SUB(lo, j))
            elif isinstance(it, NdIndex):
                shp = it.shape
                if len(shp) == 1:
                    n_it = shp[0]
                    item = lambda j: (j,)
                else:
                    raise Unsupported("ndindex over more than one symbolic dimension")
            elif isinstance(it, Arr):
                n_it = it.shape[0]
                snap_cell = None
                item = None  # read at iteration time (numpy iterates a live view)
            elif isinstance(it, EnumV):
                raise Unsupported("enumerate over a symbolic sequence")
            else:
                raise Unsupported(f"iteration over {it!r}")
            n_it = Z(n_it)
        widen = {}
        hcells = set()
        base_mark = len(self.obls)
        for attempt in range(12):
            mark = (len(self.obls), self.symc)
            keys_mark = set(self.obl_keys)
            lp_mark = len(self.live_points)
            # --- invariants hold initially
            head0 = st.copy()
            ex0 = dict(extra0)
            if it is not None:
                ex0["#k"] = 0
                ex0["#n"] = n_it
                self.bind_loopvar(s, it, item, 0, head0, ghost_only=True, ex=ex0)
            for label, f in self.invariants(k, specs, head0, pre, ex0):
                self.oblige(head0, "inv-init", f"loop{k}.{label[2]}", f, self.loc(s, st), cand=label)
            # --- arbitrary iteration
            h = st.copy()
            hv = h.frames[-1].vars
            for nme in sorted(names):
                if nme not in fr0 or isinstance(fr0[nme], Undef):
                    hv[nme] = Undef("assigned in loop")
                    continue
                v = widen.get(nme, fr0[nme])
                if isinstance(v, MaybeDef):
                    n2 = self.nm(nme + ".def")
                    hv[nme] = MaybeDef(z3.Bool(n2), self.fresh_like(v.val, nme))
                else:
                    try:
                        hv[nme] = self.fresh_like(v, nme)
                    except Unsupported:
                        hv[nme] = Undef("object reassigned in loop")
            carried = [(nme, hv[nme]) for nme in sorted(names) if not isinstance(hv[nme], Undef)]
            for nme, keys in sorted(dict_stores(s.body).items()):
                d = hv.get(nme)
                if isinstance(d, PyDict):
                    for q in keys:
                        d[q] = Undef("assigned in loop")
                    d.loopvar = d.loopvar | keys
            for c in sorted(hcells):
                ct = h.heap[c]
                h.heap[c] = fresh_content(c, ct.shape, ct.kind, name=self.nm("A" + c))
                carried.append((c, h.heap[c]))
            ex1 = dict(extra0)
            if it is not None:
                kk = z3.Int(self.nm("k"))
                ex1["#k"] = kk
                ex1["#n"] = n_it
                h.assume(kk >= 0)
                h.assume(z3.Or(kk <= n_it, kk == 0))
                self.bind_loopvar(s, it, item, kk, h, ghost_only=True, ex=ex1)
            for label, f in self.invariants(k, specs, h, pre, ex1):
                h.assume(f)
            # --- body
            self.writes.append(set())
            body_in = []
            exits = []
            if it is None:
                for x, v in self.with_forks(h, lambda x: self.truth(self.eval(s.test, x), x)):
                    if isinstance(v, bool):
                        (body_in if v else exits).append(x)
                    else:
                        y = x.copy()
                        x.assume(v)
                        y.assume(NOT(v))
                        if self.feasible(x):
                            body_in.append(x)
                        exits.append(y)
            else:
                b = h.copy()
                b.assume(kk < n_it)
                self.bind_loopvar(s, it, item, kk, b, ex=ex1)
                body_in.append(b)
                y = h.copy()
                y.assume(kk >= n_it)
                # the loop variable keeps its last value
                self.bind_after(s, it, item, kk, y, fr0)
                exits.append(y)
            outs = []
            back = []
            ends = []
            steps = [sp.step for _, sp in specs if sp is not None and sp.step is not None]
            watch = steps or any(sp is not None and sp.alone for _, sp in specs)
            for b in body_in:
                self.live_points.append((f"loop{k}-body", list(b.pc)))
                b0 = b.copy() if watch else None
                for o in self.block(s.body, b):
                    if o[0] in ("next", "continue"):
                        back.append(o[1])
                        if watch:
                            ends.append((b0, o[1]))
                    elif o[0] == "break":
                        exits.append(o[1])
                    else:
                        outs.append(o)
            w = self.writes.pop()
            w = {c for c in w if c in st.heap}
            # --- type widening / heap discovery
            redo = False
            if not w <= hcells:
                hcells |= w
                redo = True
            for b in back:
                bv = b.frames[-1].vars
                for nme in names:
                    if nme in fr0 and not isinstance(fr0[nme], Undef):
                        v0 = widen.get(nme, fr0[nme])
                        v1 = bv.get(nme)
                        t0, t1 = tykey(v0), tykey(v1)
                        if t0 != t1:
                            j = tyjoin(v0, v1)
                            if j is not None and tykey(j) != t0:
                                widen[nme] = j
                                redo = True
            if redo:
                del self.obls[mark[0]:]
                self.obl_keys = keys_mark
                del self.live_points[lp_mark:]
                self.symc = mark[1]
                continue
            for b in back:
                ex2 = dict(extra0)
                if it is not None:
                    ex2["#k"] = kk + 1
                    ex2["#n"] = n_it
                    self.bind_loopvar(s, it, item, kk + 1, b, ghost_only=True, ex=ex2)
                for label, f in self.invariants(k, specs, b, pre, ex2):
                    self.oblige(b, "inv-pres", f"loop{k}.{label[2]}", f, self.loc(s, st), cand=label)
            for b0, b in ends:
                c0 = Ctx(self, b0, old=self.entry, pre=pre, extra=ex1, rename=self.rename)
                c1 = Ctx(self, b, old=self.entry, pre=pre, rename=self.rename)
                for step in steps:
                    self.quiet += 1
                    try:
                        facts = named(step(c0, c1))
                    finally:
                        self.quiet -= 1
                    for label, f in facts:
                        self.oblige(b, "step", f"loop{k}.{label}", f, self.loc(s, st))
            alone = [q for _, sp in specs if sp is not None for q in sp.alone]
            if alone and it is not None and "#next" in ex1 and len(st.frames) == 1 and ends:
                self.alone_obligations(k, s, st, alone, h, pre, carried, ends, ex1)
            break
        else:
            raise Unsupported("loop analysis did not stabilise")
        if self.writes:
            self.writes[-1] |= {c for c in hcells}
        res = list(outs)
        for e in exits:
            if not self.feasible(e):
                continue
            if s.orelse:
                raise Unsupported("loop else")
            res.append(("next", e, None))
        return res

    def alone_obligations(self, k, s, st, alone, h, pre, carried, ends, ex1):
        """what a pass stores at its index is determined by the inputs of the loop and
        the index: no value carried from an earlier pass occurs in the stored value, in
        a decision on the way, or in an argument of a call whose result occurs there"""
        index = symbols_of(ex1["#next"], h)
        from_ = {}
        for nme, v in carried:
            for q in symbols_of(v, h) - index:
                from_[q] = nme
        nx = Z(ex1["#next"])
        ch = Ctx(self, h, old=self.entry, rename=self.rename)
        own = []
        for q in alone:
            # the entry at the index is still what it was before the loop
            x, x0 = as_f(ch[q][nx]), as_f(pre[q][nx])
            self.oblige(ends[0][0], "step", f"loop{k}.alone.{q}", AND(IFF(x.n, x0.n), OR(x0.n, Z(x.v) == Z(x0.v))), self.loc(s, st))
            own += [(e, z3.FreshConst(e.sort(), "own")) for e in (x.n, x.v) if z3.is_expr(e)]
        rid = lambda e: z3.substitute(z3.simplify(z3.substitute(e, *own)), *own) if z3.is_expr(e) and own else e
        for b0, b in ends:
            c1 = Ctx(self, b, old=self.entry, rename=self.rename)
            seen = set()
            for f in b.pc[len(b0.pc):]:
                seen |= symbols_of(rid(f), b)
            self.quiet += 1
            try:
                for q in alone:
                    x = as_f(c1[q][nx])
                    seen |= symbols_of(rid(x.n), b)
                    seen |= symbols_of(rid(z3.If(x.n, 0, x.v) if z3.is_expr(x.n) else x.v), b)
            finally:
                self.quiet -= 1
            todo = list(seen)
            while todo:
                for d in self.flow.get(todo.pop(), ()):
                    if d not in seen:
                        seen.add(d)
                        todo.append(d)
            bad = sorted({from_[q] for q in seen if q in from_})
            self.oblige(b, "step", f"loop{k}.alone" + (":" + ",".join(bad) if bad else ""), z3.BoolVal(not bad), self.loc(s, st))

    def bind_loopvar(self, s, it, item, j, st, ghost_only=False, ex=None):
        """bind the loop target to the j-th item. ghost_only: only expose the
        index the loop is about to run ('#next') to the invariants"""
        if isinstance(it, RangeV):
            v = item(j)
        elif isinstance(it, NdIndex):
            v = item(j)
        else:
            v = None
        if ex is not None:
            ex["#next"] = v if not isinstance(v, tuple) else v[0]
            tn = s.target.id if isinstance(s.target, ast.Name) else None
            if tn:
                # in an invariant the loop variable denotes the next index
                for alias in [tn] + [o for o, n in self.rename.items() if n == tn]:
                    if v is not None:
                        ex[alias] = v if not isinstance(v, tuple) else v[0]
        if ghost_only:
            return
        if v is None:
            v = self.getitem(it, (j,), st, s, check=False)
        self.assign(s.target, v, st)

    def bind_after(self, s, it, item, kk, st, fr0):
        if isinstance(s.target, ast.Name):
            nme = s.target.id
            if isinstance(it, Arr):
                last = None
            else:
                last = item(SUB(kk, 1))
            old = fr0.get(nme, Undef())
            if last is None:
                try:
                    sample = self.getitem(it, (SUB(kk, 1),), st.copy(), s, check=False)
                    st.frames[-1].vars[nme] = MaybeDef(kk > 0, sample) if isinstance(old, Undef) else Undef("loop var")
                except Unsupported:
                    st.frames[-1].vars[nme] = Undef("loop var")
                return
            if isinstance(old, Undef):
                st.frames[-1].vars[nme] = MaybeDef(kk > 0, last)
            else:
                try:
                    st.frames[-1].vars[nme] = self.merge_val(kk > 0, last, old, st)
                except Unsupported:
                    st.frames[-1].vars[nme] = MaybeDef(kk > 0, last)

    def unrolled(self, s, st, items):
        states = [st]
        outs = []
        exits = []
        for v in items:
            nxt = []
            for x in states:
                x = x.copy()
                self.assign(s.target, v, x)
                for o in self.block(s.body, x):
                    if o[0] in ("next", "continue"):
                        nxt.append(o[1])
                    elif o[0] == "break":
                        exits.append(o[1])
                    else:
                        outs.append(o)
            states = nxt
        if s.orelse:
            raise Unsupported("loop else")
        return outs + [("next", x, None) for x in states + exits]

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            if isinstance(v, F) and self.contract.options.get("let_nl") and nonlinear(v.v):
                x = z3.Real(self.nm("let!" + t.id))
                st.assume(x == v.v)
                v = F(v.n, x)
            st.frames[-1].vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, len(t.elts), st)
            for e, x in zip(t.elts, vals):
                self.assign(e, x, st)
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value, st)
            idx = self.eval_index(t.slice, st)
            self.setitem(base, idx, v, st, t)
        elif isinstance(t, ast.Attribute):
            base = self.eval(t.value, st)
            if isinstance(base, Opaque):
                return
            if isinstance(base, StateObj):
                if self.writes:
                    raise Unsupported("object changed in a loop")
                base.setattr_model(self, t.attr, v, st)
                return
            raise Unsupported("attribute assignment")
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n, st):
        if isinstance(v, (tuple, list)):
            if len(v) != n:
                raise Unsupported(f"unpack {len(v)} into {n}")
            return list(v)
        if isinstance(v, Arr):
            return [self.getitem(v, (i,), st, None) for i in range(n)]
        if isinstance(v, Opaque):
            return [Opaque(v.tag + f"[{i}]") for i in range(n)]
        raise Unsupported(f"unpack {v!r}")

    # ------------------------------------------------------------ calls
    def pure_call(self, st, fn, args):
        """evaluate a pure call without recording obligations, on a copy"""
        s = st.copy()
        s.choices, s.cpos = [], 0
        n0 = len(s.pc)
        self.quiet += 1
        try:
            v = self.call(fn, list(args), {}, s, None)
        finally:
            self.quiet -= 1

        def keep(x):
            if isinstance(x, Arr) and x.cell not in st.heap:
                st.heap[x.cell] = s.heap[x.cell]
            elif isinstance(x, tuple):
                for y in x:
                    keep(y)

        keep(v)
        return v

    def call(self, fn, args, kw, st, node):
        from . import numpy_model

        if isinstance(fn, MaybeDef):
            fn = fn.val
        if isinstance(fn, OpaqueFn):
            return fn.spec(self, st, args, kw)
        if isinstance(fn, Builtin):
            return numpy_model.call(self, fn.name, args, kw, st, node)
        if isinstance(fn, Method):
            return numpy_model.method(self, fn.obj, fn.name, args, kw, st, node)
        if isinstance(fn, RepoFunc):
            own = getattr(self.contract, "callees", {})
            con = own[fn.key] if fn.key in own else self.registry.get(fn.key)
            if con is not None and con.modular and not (con.unit == self.contract.unit and self.depth == 0 and False):
                bound = self.bind_call(fn, args, kw, st)
                return self.apply_contract(con, fn, bound, st, node)
            sig = gufunc_signature(fn.node)
            if sig is not None and len(args) + len(kw) == len(sig[0]):
                return numpy_model.gufunc(self, fn, sig, args, kw, st, node)
            return self.inline(fn, args, kw, st, node)
        if isinstance(fn, Opaque):
            return numpy_model.opaque_call(self, fn.tag, args, kw, st, node)
        raise Unsupported(f"call of {fn!r}")

    def bind_call(self, fn, args, kw, st):
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        for n, v in zip(names, args):
            out[n] = v
        rest = args[len(names):]
        if a.vararg:
            out[a.vararg.arg] = tuple(rest)
        elif rest:
            raise Unsupported(f"too many arguments to {fn.qual}")
        kwo = [x.arg for x in a.kwonlyargs]
        extra = PyDict()
        extra.depth = len(self.writes)
        for k, v in kw.items():
            if k in names or k in kwo:
                if k in out:
                    raise Unsupported(f"duplicate argument {k}")
                out[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                raise Unsupported(f"unexpected keyword {k} for {fn.qual}")
        if a.kwarg:
            out[a.kwarg.arg] = extra
        nd = len(a.defaults)
        dst = State()
        dst.frames.append(Frame(fn.mod, fn.qual, {}))
        dst.heap = st.heap
        for i, d in enumerate(a.defaults):
            n = names[len(names) - nd + i]
            if n not in out:
                out[n] = self.eval(d, dst)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in out and d is not None:
                out[x.arg] = self.eval(d, dst)
        for n in names:
            if n not in out:
                raise Unsupported(f"missing argument {n} of {fn.qual}")
        return out

    def apply_contract(self, con, fn, bound, st, node):
        self.called.add(con.unit)
        # contract parameter names are those of the baseline signature: map by position
        sig = [x.arg for x in fn.node.args.posonlyargs + fn.node.args.args]
        base = getattr(con, "params", None)
        if base:
            vals = {}
            for i, b in enumerate(base):
                if b in bound:
                    vals[b] = bound[b]
                elif i < len(sig) and sig[i] in bound:
                    vals[b] = bound[sig[i]]
                else:
                    raise Unsupported(f"contract parameter {b} of {con.unit}")
        else:
            vals = bound
        ctx = Ctx(self, st, frame=vals)
        ctx.old = snapshot(self, st, vals)
        loc = self.loc(node, st) if node is not None else "?"
        for label, f in named(con.requires(ctx)):
            self.oblige(st, "pre", f"{con.func}.{label}", f, loc)
        res = con.result(self, st, ctx)
        if self.entry is not None:
            args = set()
            for v in vals.values():
                args |= symbols_of(v, st)
            for q in symbols_of(res, st) - args:
                if "!" in q:  # made by this call; a named function shows its arguments
                    self.flow.setdefault(q, set()).update(args)
        ctx2 = Ctx(self, st, frame=vals, old=ctx.old)
        ctx2.rawres = res
        ctx2.res = ctx2.view(res)
        for label, f in named(con.ensures(ctx2)):
            st.assume(f)
        return res

    def inline(self, fn, args, kw, st, node):
        if self.depth > 12:
            raise Unsupported("inline depth")
        self.inlined.add(f"{fn.mod.path}:{fn.qual}")
        bound = self.bind_call(fn, args, kw, st)
        if isinstance(fn.node, ast.Lambda):
            body = [ast.copy_location(ast.Return(value=fn.node.body), fn.node.body)]
        else:
            check_decorators(self, fn.mod, fn.node)
            body = fn.node.body

        def make():
            memo = {}
            s = st.copy(memo)
            s.choices, s.cpos = [], 0
            fr = Frame(fn.mod, fn.qual, {}, id=len(s.frames))
            if fn.env is not None:
                kind, ref = fn.env
                if kind == "frame":
                    for k, v in s.frames[ref].vars.items():
                        fr.vars[k] = v
                else:
                    fr.vars.update(ref)
            fr.vars.update({k: copy_obj(v, memo) for k, v in bound.items()})
            s.frames.append(fr)
            self.depth += 1
            try:
                outs = self.block(body, s)
            finally:
                self.depth -= 1
            pl = []
            for kind, x, v in outs:
                if kind == "next":
                    kind, v = "return", None
                if kind == "raise":
                    con = self.contract
                    if not self.quiet and con.must_raise is not None:
                        self.live_points.append(("raise", list(x.pc)))
                        self.oblige(x, "post", "raises", z3.BoolVal(any(y in str(v) for y in con.must_raise)), f"{fn.qual}:raise")
                    elif not self.quiet:
                        ok = con.raises(Ctx(self, x, old=self.entry, frame=self.params))
                        if ok is not True:
                            self.oblige(x, "no-raise", f"raise-{v}", ok, f"{fn.qual}:raise")
                    continue
                if kind != "return":
                    raise Unsupported(kind)
                # a closure over the callee frame must survive the return
                if isinstance(v, RepoFunc) and v.env and v.env[0] == "frame" and v.env[1] == len(x.frames) - 1:
                    v = RepoFunc(v.mod, v.node, ("vars", dict(x.frames[-1].vars)), v.qual)
                x.frames.pop()
                pl.append((x, v))
            return pl

        if self.quiet or self.contract.options.get("merge_calls"):
            pl = make()
            if not pl:
                raise Unsupported("no return")
            x, v = pl[0]
            for y, w in pl[1:]:
                n = 0
                while n < len(x.pc) and n < len(y.pc) and x.pc[n].eq(y.pc[n]):
                    n += 1
                ca = AND(*x.pc[n:])
                if n < len(x.pc):
                    ca = x.pc[n] if (n < len(y.pc) and compl(x.pc[n], y.pc[n])) else ca
                x2 = self.merge2(x, y)
                v = self.merge_val(ca, v, w, x2)
                x = x2
            return copy_obj(v, st.become(x))
        # fork: try without forking first
        if st.cpos < len(st.choices):
            x, v = self.choose(st, None)
        else:
            pl = make()
            if len(pl) == 1:
                x, v = pl[0]
            elif not pl:
                # the call always raises
                raise DeadPath()
            else:
                after = (self.symc, self.cellc)
                raise ForkNeeded([(p, after) for p in pl])
        return copy_obj(v, st.become(x))

    # ------------------------------------------------------------ expressions
    def eval(self, e, st):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e, st)

    def e_Constant(self, e, st):
        v = e.value
        if isinstance(v, float):
            return F(False, z3.RealVal(Fraction(repr(v))))
        if v is Ellipsis:
            return Ellipsis
        return v

    def e_Name(self, e, st):
        return self.name(e.id, st, e)

    def name(self, nm, st, node=None):
        fr = st.frames[-1]
        if nm in fr.vars:
            v = fr.vars[nm]
            if isinstance(v, MaybeDef):
                self.oblige(st, "defined", nm, v.flag, self.loc(node, st) if node is not None else "?")
                return v.val
            if isinstance(v, Undef):
                raise Unsupported(f"read of {nm} ({v.why})")
            return v
        return self.global_name(fr.mod, nm, st)

    def global_name(self, mod, nm, st):
        key = nm
        if key in mod.cache:
            return mod.cache[key]
        try:
            v = self.repo.lookup(mod, nm)
        except KeyError:
            v = None
        if isinstance(v, Opaque) or v is not None:
            mod.cache[key] = v
            return v
        # module-level assignment (possibly imported)
        m2, n2 = mod, nm
        for _ in range(6):
            if n2 in m2.assigns:
                s = State()
                s.frames.append(Frame(m2, "<module>", {}))
                val = self.eval(m2.assigns[n2], s)
                if isinstance(val, Arr):
                    # module constants: give every state a copy on demand
                    c = s.heap[val.cell]
                    st.heap[val.cell] = c
                    return val
                if not isinstance(val, (tuple, list)) or not any(isinstance(x, Arr) for x in val):
                    mod.cache[key] = val
                return val
            if n2 in m2.imports and m2.imports[n2][0] == "from":
                b = self.repo.dotted(m2.imports[n2][1])
                if b is None:
                    break
                m2, n2 = b, m2.imports[n2][2]
                continue
            break
        import builtins as bi

        if hasattr(bi, nm):
            return Builtin("builtins." + nm)
        raise Unsupported(f"unknown name {nm}")

    def e_Attribute(self, e, st):
        from . import numpy_model

        b = self.eval(e.value, st)
        return numpy_model.attribute(self, b, e.attr, st, e)

    def e_Tuple(self, e, st):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, st)
                if not isinstance(v, (tuple, list)):
                    raise Unsupported("starred")
                out.extend(v)
            else:
                out.append(self.eval(x, st))
        return tuple(out)

    def e_List(self, e, st):
        t = self.e_Tuple(e, st)
        if t and all(is_num(x) for x in t):
            kinds = ["b" if isb(x) else "i" if is_int(x) else "f" for x in t]
            kind = "f" if "f" in kinds else kinds[0]
            vals = [as_f(x) if kind == "f" else x for x in t]
            return self.new_arr(st, const_content(vals, kind))
        return list(t)

    def e_Set(self, e, st):
        return self.e_Tuple(e, st)

    def e_Dict(self, e, st):
        d = PyDict()
        d.depth = len(self.writes)
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.eval(v, st)
                if not isinstance(o, PyDict):
                    raise Unsupported("dict splat")
                d.update(o)
                continue
            kk = self.eval(k, st)
            if not isinstance(kk, (str, int)):
                raise Unsupported("dict key")
            d[kk] = self.eval(v, st)
        return d

    def e_JoinedStr(self, e, st):
        return "<fstring>"

    def e_Lambda(self, e, st):
        return RepoFunc(st.frames[-1].mod, e, ("frame", len(st.frames) - 1), st.frames[-1].fn + ".<lambda>")

    def e_NamedExpr(self, e, st):
        v = self.eval(e.value, st)
        self.assign(e.target, v, st)
        return v

    def e_IfExp(self, e, st):
        c = self.truth(self.eval(e.test, st), st)
        if isinstance(c, bool):
            return self.eval(e.body if c else e.orelse, st)
        # evaluate both sides under their guards
        a, ok = self.guarded(st, c, lambda: self.eval(e.body, st))
        b, ok = self.guarded(st, NOT(c), lambda: self.eval(e.orelse, st))
        return self.merge_val(c, a, b, st)

    def guarded(self, st, g, fn):
        """evaluate fn with g assumed; facts learnt become guarded facts"""
        n = len(st.pc)
        if isinstance(g, bool):
            return fn(), True
        st.pc.append(g)
        v = fn()
        extra = st.pc[n + 1:]
        del st.pc[n:]
        for f in extra:
            st.pc.append(z3.Implies(g, f))
        return v, True

    def e_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)
        first = self.eval(e.values[0], st)
        acc = self.truth(first, st)
        vals = [first]
        for x in e.values[1:]:
            if isinstance(acc, bool):
                if acc != isand:
                    return vals[-1] if not isb(vals[-1]) else acc
                nv = self.eval(x, st)
                vals = [nv]
                acc = self.truth(nv, st)
                if not isb(nv) and x is e.values[-1]:
                    return nv
                continue
            g = acc if isand else NOT(acc)
            nv, _ = self.guarded(st, g, lambda: self.truth(self.eval(x, st), st))
            acc = AND(acc, nv) if isand else OR(acc, nv)
            vals = [acc]
        return acc

    def e_UnaryOp(self, e, st):
        v = self.eval(e.operand, st)
        op = type(e.op).__name__
        from . import numpy_model

        return numpy_model.unop(self, op, v, st)

    def e_BinOp(self, e, st):
        a = self.eval(e.left, st)
        b = self.eval(e.right, st)
        return self.binop(type(e.op).__name__, a, b, st, e)

    def binop(self, op, a, b, st, node):
        from . import numpy_model

        return numpy_model.binop(self, op, a, b, st, node)

    def e_Compare(self, e, st):
        from . import numpy_model

        left = self.eval(e.left, st)
        acc = True
        for op, r in zip(e.ops, e.comparators):
            if isinstance(acc, bool) and not acc:
                return False
            right = self.eval(r, st)
            v = numpy_model.compare(self, type(op).__name__, left, right, st)
            if isinstance(v, Arr):
                if len(e.ops) > 1:
                    raise Unsupported("chained array comparison")
                return v
            if isinstance(v, Opaque):
                return v
            acc = AND(acc, v)
            left = right
        return acc

    def truth(self, v, st):
        if isb(v):
            if z3.is_expr(v):
                if z3.is_true(v):
                    return True
                if z3.is_false(v):
                    return False
            return v
        if v is None:
            return False
        if isinstance(v, (str, tuple, list, PyDict)):
            return len(v) > 0
        if is_int(v):
            if isinstance(v, int):
                return v != 0
            return v != 0
        if isinstance(v, F):
            return OR(v.n, v.v != 0)
        if isinstance(v, (RepoFunc, OpaqueFn, Builtin, ModRef)):
            return True
        if isinstance(v, Opaque):
            return z3.Bool(self.nm("opaque"))
        if isinstance(v, Arr) and v.ndim == 0:
            return self.truth(self.getitem(v, (), st, None), st)
        raise Unsupported(f"truth of {v!r}")

    def e_Subscript(self, e, st):
        b = self.eval(e.value, st)
        idx = self.eval_index(e.slice, st)
        return self.getitem(b, idx, st, e)

    def eval_index(self, s, st):
        """-> tuple of index items: int terms, slice(lo,hi,step), None, Ellipsis, Arr"""
        if isinstance(s, ast.Tuple):
            out = []
            for x in s.elts:
                if isinstance(x, ast.Starred):
                    out.extend(self.eval(x.value, st))
                else:
                    out.extend(self.eval_index(x, st))
            return tuple(out)
        if isinstance(s, ast.Slice):
            lo = self.eval(s.lower, st) if s.lower is not None else None
            hi = self.eval(s.upper, st) if s.upper is not None else None
            sp = self.eval(s.step, st) if s.step is not None else None
            return (slice(lo, hi, sp),)
        v = self.eval(s, st)
        if isinstance(v, tuple):
            return v
        return (v,)

    def getitem(self, b, idx, st, node, check=True):
        from . import numpy_model

        return numpy_model.getitem(self, b, idx, st, node, check)

    def setitem(self, b, idx, v, st, node):
        from . import numpy_model

        return numpy_model.setitem(self, b, idx, v, st, node)

    def write_all(self, st, arr, v, node):
        from . import numpy_model

        numpy_model.setitem(self, arr, (Ellipsis,), v, st, node)

    def mark_write(self, cell):
        for w in self.writes:
            w.add(cell)

    def e_Call(self, e, st):
        from . import numpy_model

        fn = self.eval(e.func, st)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, st)
                if isinstance(v, Arr) and isinstance(v.shape[0], int):
                    v = tuple(self.getitem(v, (i,), st, e) for i in range(v.shape[0]))
                if not isinstance(v, (tuple, list)):
                    raise Unsupported("starred argument")
                args.extend(v)
            elif isinstance(a, ast.GeneratorExp):
                args.append(self.comp(a, st))
            else:
                args.append(self.eval(a, st))
        kw = {}
        for k in e.keywords:
            v = self.eval(k.value, st)
            if k.arg is None:
                if not isinstance(v, PyDict):
                    raise Unsupported("** argument")
                kw.update(v)
            else:
                kw[k.arg] = v
        return self.call(fn, args, kw, st, e)

    def comp(self, e, st):
        if len(e.generators) != 1:
            raise Unsupported("nested comprehension")
        g = e.generators[0]
        it = self.eval(g.iter, st)
        items = self.iter_items(it, st)
        if items is None:
            raise Unsupported("comprehension over a symbolic sequence")
        saved = dict(st.frames[-1].vars)
        out = []
        for v in items:
            self.assign(g.target, v, st)
            keep = True
            for c in g.ifs:
                t = self.truth(self.eval(c, st), st)
                if not isinstance(t, bool):
                    raise Unsupported("symbolic filter")
                keep = keep and t
            if keep:
                out.append(self.eval(e.elt, st))
        names = assigned_names([ast.For(target=g.target, iter=ast.Constant(value=0), body=[], orelse=[], lineno=0)])
        for n in names:
            if n in saved:
                st.frames[-1].vars[n] = saved[n]
            else:
                st.frames[-1].vars.pop(n, None)
        return tuple(out)

    def e_GeneratorExp(self, e, st):
        return self.comp(e, st)

    def e_ListComp(self, e, st):
        return list(self.comp(e, st))


class EnumV:
    pass


class Pre:
    """values at loop entry"""

    def __init__(self, ex, st):
        self.ex = ex
        self.st = st.copy()

    def __getitem__(self, name):
        return Ctx(self.ex, self.st, rename=self.ex.rename)[name]


def InvItems(inv, ctx, ex, key):
    """evaluate a loop's invariant function; a clause that cannot be evaluated in
    this state (a name is missing) is dropped and reported"""
    try:
        for it in inv(ctx):
            label, f = it
            if callable(f):
                try:
                    f = f()
                except (KeyError, Unsupported, AttributeError, TypeError, IndexError, z3.Z3Exception) as err:
                    ex.bad_inv.add((key, label, repr(err)[:120]))
                    continue
            yield label, f
    except (KeyError, Unsupported, AttributeError, TypeError, IndexError, z3.Z3Exception) as err:
        ex.bad_inv.add((key, "*", repr(err)[:120]))


def named(items):
    out = []
    for i, it in enumerate(items):
        if isinstance(it, tuple):
            out.append(it)
        else:
            out.append((str(i), it))
    return out


def compl(a, b):
    return (z3.is_not(a) and a.arg(0).eq(b)) or (z3.is_not(b) and b.arg(0).eq(a))


def const_content(vals, kind):
    def get(idx):
        i = idx[0]
        if isinstance(i, int):
            return vals[i]
        if z3.is_int_value(i):
            return vals[i.as_long()]
        r = vals[-1]
        for j in range(len(vals) - 2, -1, -1):
            r = ITE(i == j, vals[j], r)
        return r

    return Content((len(vals),), kind, get)


def same_val(a, b):
    if a is b:
        return True
    if same(a, b):
        return True
    if isinstance(a, (str, type(None))) and type(a) == type(b):
        return a == b
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and len(a) == len(b):
        return all(same_val(x, y) for x, y in zip(a, b))
    if isinstance(a, Builtin) and isinstance(b, Builtin):
        return a.name == b.name
    if isinstance(a, ModRef) and isinstance(b, ModRef):
        return a.name == b.name
    if isinstance(a, RepoFunc) and isinstance(b, RepoFunc):
        return a.node is b.node and a.env == b.env
    if isinstance(a, Arr) and isinstance(b, Arr):
        return a.cell == b.cell and a.imap is b.imap and all(same(x, y) for x, y in zip(a.shape, b.shape)) and len(a.shape) == len(b.shape)
    return False


def tykey(v):
    if isinstance(v, MaybeDef):
        return tykey(v.val)
    if isb(v):
        return "b"
    if is_int(v):
        return "i"
    if isinstance(v, (F, float, Fraction, PInf)):
        return "f"
    if isinstance(v, tuple):
        return ("t",) + tuple(tykey(x) for x in v)
    return "o"


def tyjoin(a, b):
    ma = isinstance(a, MaybeDef)
    fl = a.flag if ma else None
    x = a.val if ma else a
    y = b.val if isinstance(b, MaybeDef) else b
    if isinstance(b, Undef) or b is None:
        return None
    if is_num(x) and is_num(y):
        if tykey(x) == "f" or tykey(y) == "f":
            v = as_f(x)
        elif tykey(x) == "i" or tykey(y) == "i":
            v = as_int(x)
        else:
            v = x
        return MaybeDef(fl, v) if ma else v
    return None


def find_def(mod, qual):
    parts = qual.split(".<locals>.")
    body = mod.tree.body
    node = None
    for p in parts:
        node = None
        cands = []

        def search(stmts):
            for s in stmts:
                if isinstance(s, ast.FunctionDef):
                    if s.name == p:
                        cands.append(s)
                elif isinstance(s, (ast.If, ast.Try, ast.With)):
                    search(s.body)
                    search(getattr(s, "orelse", []))
        search(body)
        if not cands:
            return None
        node = cands[0]
        body = node.body
    return node


def gufunc_signature(node):
    """core dimensions of the inputs and outputs of a guvectorize'd function"""
    for d in getattr(node, "decorator_list", []):
        if isinstance(d, ast.Call) and ast.unparse(d.func) in ("nb.guvectorize", "numba.guvectorize"):
            for a in d.args:
                if isinstance(a, ast.Constant) and isinstance(a.value, str):
                    i, o = a.value.replace(" ", "").split("->")
                    f = lambda t: [tuple(x for x in g.split(",") if x) for g in re.findall(r"\(([^)]*)\)", t)]
                    return f(i), f(o)
            raise Unsupported("guvectorize signature")
    return None


OK_DECOS = {
    "nb.njit", "numba.njit", "njit", "nb.jit", "numba.jit",
    "functools.lru_cache", "ft.lru_cache", "lru_cache", "functools.cache",
    "nb.guvectorize", "numba.guvectorize", "nb.vectorize", "numba.vectorize",
    "functools.wraps", "ft.wraps",
}
OK_KW = {"cache", "maxsize", "nopython", "inline", "nogil", "boundscheck", "typed"}


def check_decorators(ex, mod, node):
    """a decorator that changes the semantics the contracts assume (fastmath,
    error_model, parallel) takes the function out of reach"""
    for d in getattr(node, "decorator_list", []):
        nm = ast.unparse(d.func) if isinstance(d, ast.Call) else ast.unparse(d)
        if nm not in OK_DECOS:
            raise Unsupported(f"decorator {nm}")
        if isinstance(d, ast.Call):
            for k in d.keywords:
                if k.arg not in OK_KW and not (isinstance(k.value, ast.Constant) and k.value.value is False):
                    raise Unsupported(f"decorator option {k.arg}")
