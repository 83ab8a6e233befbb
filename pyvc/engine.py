"""pyvc: a small deductive verifier for the Python subset used in /repo/Code.

The verified text is the real source: every run parses the files under
$VERIF_REPO (default /repo) with `ast` and symbolically executes the functions
under contract.  Method: forward symbolic execution with path splitting, by
re-execution along a decision prefix.  Calls to functions that have a contract
use the contract only (assert pre, havoc frame, assume post); other repository
functions are inlined.  Loops over symbolic data are cut with an invariant
(assert on entry, havoc, assume, run one arbitrary iteration, assert, stop).
Integers are unbounded mathematical integers, which is what Python has.

Everything that is not modelled raises Unsupported: the function is then
reported as *not verified* (never as proved).
"""
import ast, os, sys, math, time, itertools, hashlib, subprocess, tempfile
import z3

REPO = os.environ.get("VERIF_REPO", "/repo")
CODE = os.path.join(REPO, "Code")


class Unsupported(Exception):
    """Construct outside the verified subset, or a contract that cannot bind."""

class PathEnd(Exception):
    """This path is finished (infeasible, or cut at a loop back edge)."""

class Restart(Exception):
    """Exploration must be restarted (a larger loop frame was discovered)."""

class BreakEx(Exception): pass
class ContinueEx(Exception): pass
class ReturnEx(Exception):
    def __init__(self, value): self.value = value

class PyRaise(Exception):
    """A Python exception raised by the interpreted program."""
    def __init__(self, kind, msg="", value=None):
        Exception.__init__(self, kind, msg)
        self.kind, self.msg, self.value = kind, msg, value


# ---------------------------------------------------------------- values
Sort = z3.DeclareSort
SYM = Sort("Sym")       # tape symbols (uninterpreted: equality only)
STATE = Sort("State")   # machine states

def is_z(x): return isinstance(x, z3.ExprRef)
def is_zint(x): return is_z(x) and z3.is_int(x)
def is_zbool(x): return is_z(x) and z3.is_bool(x)
def is_num(x): return (isinstance(x, (int, float)) and not isinstance(x, bool)) or is_zint(x)

class Missing:
    def __repr__(self): return "<missing>"
MISSING = Missing()

_ids = itertools.count()

class Obj:
    """Heap object with named fields."""
    def __init__(self, E, cls, fields=None, tag=None):
        object.__setattr__(self, "cls", cls)
        self.fields = dict(fields or {})
        self.tag = tag
        self.oid = E.new_oid(self)
        self.meta = {}
    def __repr__(self):
        return "<%s #%d>" % (getattr(self.cls, "name", self.cls), self.oid)

class PyList:
    """Concrete-length list (or deque / tuple-like) of values."""
    def __init__(self, E, items, kind="list"):
        self.items = list(items); self.kind = kind; self.oid = E.new_oid(self)
    def __repr__(self): return "<%s %r>" % (self.kind, self.items)

class SymSeq:
    """Sequence of symbolic length; content is a function index -> value."""
    def __init__(self, E, get, length, kind="list", mk=None, tag=None):
        self.get, self.length, self.kind = get, length, kind
        self.mk = mk            # mk(name) -> fresh index->value function (for havoc)
        self.tag = tag
        self.oid = E.new_oid(self)
    def __repr__(self): return "<symseq %s len=%s>" % (self.kind, self.length)

class PyDict:
    """Dictionary with concrete keys."""
    def __init__(self, E, d=None):
        self.d = dict(d or {}); self.oid = E.new_oid(self)
    def __repr__(self): return "<dict %r>" % (self.d,)

class PySet:
    def __init__(self, E, items=()):
        self.items = list(items); self.oid = E.new_oid(self)

class SymMap:
    """Symbolic finite map: has(k) -> z3 Bool, get(k) -> value."""
    def __init__(self, E, has, get, mk=None, tag=None):
        self.has, self.get, self.mk, self.tag = has, get, mk, tag
        self.order = None       # (n, key(k)): iteration order, when known
        self.oid = E.new_oid(self)

class SymSet:
    def __init__(self, E, has, mk=None, tag=None):
        self.has, self.mk, self.tag = has, mk, tag
        self.oid = E.new_oid(self)

class Opaque:
    """A value nothing is known about (strings for printing, timers, ...)."""
    def __init__(self, why=""): self.why = why
    def __repr__(self): return "<opaque %s>" % self.why

class FuncV:
    def __init__(self, module, node, qualname, closure=None, cls=None):
        self.module, self.node, self.qualname = module, node, qualname
        self.closure, self.cls = closure, cls
        self.decorators = [ast.unparse(d) for d in getattr(node, "decorator_list", [])]
    def __repr__(self): return "<func %s:%s>" % (self.module.name, self.qualname)

class ClassV:
    def __init__(self, module, node, name, bases):
        self.module, self.node, self.name, self.bases = module, node, name, bases
        self.attrs = {}
    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassV):
                for c in b.mro():
                    if c not in out: out.append(c)
        return out
    def builtin_base(self):
        for c in self.mro():
            for b in c.bases:
                if isinstance(b, Builtin): return b.name
        return None
    def lookup(self, name):
        for c in self.mro():
            if name in c.attrs: return c.attrs[name]
        return MISSING
    def __repr__(self): return "<class %s>" % self.name

class BoundM:
    def __init__(self, func, self_): self.func, self.self_ = func, self_

class Builtin:
    def __init__(self, name, fn=None): self.name, self.fn = name, fn
    def __repr__(self): return "<builtin %s>" % self.name
    def __eq__(self, o): return isinstance(o, Builtin) and o.name == self.name
    def __hash__(self): return hash(self.name)

class ModuleV:
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.globals = {}
        self.tree = None
        self.src = ""
    def __repr__(self): return "<module %s>" % self.name

class External:
    """Attribute of a module that is not interpreted."""
    def __init__(self, path): self.path = path
    def __repr__(self): return "<external %s>" % self.path


class Forall:
    """Universally quantified condition: proved by skolemisation, assumed with
    a z3 quantifier."""
    def __init__(self, sorts, body, patterns=None, names=None):
        self.sorts, self.body, self.patterns, self.names = sorts, body, patterns, names
    def skolem(self, E):
        vs = [E.fresh(s, "sk") for s in self.sorts]
        return self.body(*vs)
    def as_z3(self, E):
        E._bv += 1
        vs = [z3.Const("b!%d_%d" % (E._bv, i), s) for i, s in enumerate(self.sorts)]
        b = zb(self.body(*vs))
        kw = {}
        if self.patterns:
            ps = self.patterns(*vs)
        if self.patterns and ps:
            kw["patterns"] = [z3.MultiPattern(*p) if isinstance(p, (list, tuple)) and len(p) > 1
                              else (p[0] if isinstance(p, (list, tuple)) else p) for p in ps]
        return z3.ForAll(vs, b, **kw)


def zb(c):
    if isinstance(c, bool): return z3.BoolVal(c)
    if is_zbool(c): return c
    raise Unsupported("not a boolean condition: %r" % (c,))

def zi(x):
    if isinstance(x, bool): return z3.IntVal(int(x))
    if isinstance(x, int): return z3.IntVal(x)
    if is_zint(x): return x
    if is_zbool(x): return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    raise Unsupported("not an integer: %r" % (x,))

def And(*xs):
    ys = []
    for x in xs:
        if isinstance(x, bool):
            if not x: return False
        else: ys.append(x)
    if not ys: return True
    return z3.And(*ys) if len(ys) > 1 else ys[0]

def Or(*xs):
    ys = []
    for x in xs:
        if isinstance(x, bool):
            if x: return True
        else: ys.append(x)
    if not ys: return False
    return z3.Or(*ys) if len(ys) > 1 else ys[0]

def Not(x):
    return (not x) if isinstance(x, bool) else z3.Not(x)

def Implies(a, b): return Or(Not(a), b)

def Ite(c, a, b):
    if isinstance(c, bool): return a if c else b
    if isinstance(a, bool) and isinstance(b, bool):
        a, b = z3.BoolVal(a), z3.BoolVal(b)
    if isinstance(a, (int,)) and not isinstance(a, bool): a = z3.IntVal(a)
    if isinstance(b, (int,)) and not isinstance(b, bool): b = z3.IntVal(b)
    if isinstance(a, bool): a = z3.BoolVal(a)
    if isinstance(b, bool): b = z3.BoolVal(b)
    return z3.If(c, a, b)


class Obligation:
    __slots__ = ("func", "label", "path", "status", "secs", "backend", "model", "detail", "line")
    def __init__(self, **k):
        for s in self.__slots__: setattr(self, s, k.get(s))


class Stats:
    def __init__(self):
        self.queries = 0; self.solver_s = 0.0; self.cvc5 = 0


# ---------------------------------------------------------------- program
class Program:
    """The parsed repository: modules are interpreted lazily."""
    PKG = {"Macro": "Macro", "IO": "IO"}
    def __init__(self, code=None):
        self.code = code or CODE
        self.modules = {}
        self.overlay = {}
    def find(self, dotted):
        p = os.path.join(self.code, *dotted.split("."))
        if os.path.isfile(p + ".py"): return p + ".py"
        if os.path.isfile(os.path.join(p, "__init__.py")): return os.path.join(p, "__init__.py")
        return None
    def module(self, dotted):
        if dotted in self.modules: return self.modules[dotted]
        if dotted == "cpp": return self._cpp()
        path = self.find(dotted)
        if path is None: return None
        m = ModuleV(dotted, path)
        m.src = open(path, encoding="utf-8").read()
        m.tree = ast.parse(m.src, path)
        self.modules[dotted] = m
        self._load(m)
        return m
    CPP = {}
    def _cpp(self):
        """the C++ sources, translated (cppfront); lines are those of the C++"""
        from cppfront.translate import Prog, Bad
        root = os.path.dirname(os.path.abspath(self.code))
        if root not in Program.CPP:
            try: p = Prog(root); Program.CPP[root] = (p.text(), p.lines)
            except Bad as e: Program.CPP[root] = e
        v = Program.CPP[root]
        if isinstance(v, Exception): raise Unsupported("C++ sources: %s" % v)
        m = ModuleV("cpp", os.path.join(root, "cpp", "src")); m.src = v[0]; m.tree = ast.parse(v[0])
        for n in ast.walk(m.tree):
            if hasattr(n, "lineno") and v[1][n.lineno - 1]: n.lineno = v[1][n.lineno - 1]
        self.modules["cpp"] = m; self._load(m); return m
    # Only declarations are loaded; module-level code is evaluated on demand.
    def _load(self, m):
        pend = {}
        for st in m.tree.body:
            self._load_stmt(m, st)
    def _load_stmt(self, m, st):
        if isinstance(st, ast.FunctionDef):
            m.globals[st.name] = FuncV(m, st, st.name)
        elif isinstance(st, ast.ClassDef):
            m.globals[st.name] = ("lazyclass", st)
        elif isinstance(st, ast.Import):
            for a in st.names:
                nm = a.asname or a.name.split(".")[0]
                m.globals[nm] = ("lazymod", a.name if a.asname else a.name.split(".")[0])
        elif isinstance(st, ast.ImportFrom):
            for a in st.names:
                m.globals[a.asname or a.name] = ("lazyfrom", st.module, a.name, st.level)
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                if isinstance(t, ast.Name): m.globals[t.id] = ("lazyexpr", st.value)
                elif isinstance(t, ast.Tuple):
                    for i, e in enumerate(t.elts):
                        if isinstance(e, ast.Name): m.globals[e.id] = ("lazyitem", st.value, i)
        elif isinstance(st, ast.AnnAssign) and st.value is not None and isinstance(st.target, ast.Name):
            m.globals[st.target.id] = ("lazyexpr", st.value)
        elif isinstance(st, ast.Try):
            for s in st.body: self._load_stmt(m, s)
        # `if __name__ == "__main__"` and other top-level effects are dropped.

    def func(self, dotted, qualname):
        """Find a FuncV by module and qualified name (Class.method or f)."""
        m = self.module(dotted)
        if m is None: return None
        parts = qualname.split(".")
        v = m.globals.get(parts[0], MISSING)
        if v is MISSING: return None
        if len(parts) == 1: return v if isinstance(v, FuncV) else None
        if isinstance(v, tuple) and v[0] == "lazyclass":
            node = v[1]
        elif isinstance(v, ClassV):
            node = v.node
        else: return None
        for s in node.body:
            if isinstance(s, ast.FunctionDef) and s.name == parts[1]:
                return FuncV(m, s, qualname)
        return None


class Frame:
    def __init__(self, func, locals_, module, closure=None):
        self.func, self.locals, self.module, self.closure = func, locals_, module, closure
        self.yields = None


# ---------------------------------------------------------------- engine
class Engine:
    def __init__(self, program, contracts=None, fname="?", limits=None, stats=None, exts=None):
        self.P = program
        self.contracts = contracts or {}
        self.exts = exts or {}
        self.fname = fname
        self.obligations = []
        self.stats = stats or Stats()
        self.loop_frames = {}       # (loop key) -> set of (kind, oid, field)
        self.max_paths = 4000
        self.timeout_ms = 20000
        self.feas_ms = 1500
        self.paths = 0
        self.loop_specs = []
        self.top_func = None
        self.covered = set()
        self.inline_depth = 0
        self.ext_calls = set()
        self.inlined = set()
        self.used_contracts = set()
        self.assumptions = set()
        self.deadline = None; self.stack0 = None; self.slice_s = None; self.leftover = []; self.restart = False
        self.global_axioms = []
        self.quiet_attrs = set()
        self.dropped = set()

    # -- ids, fresh names (deterministic along a decision prefix)
    def new_oid(self, o):
        self._oid += 1
        if self._oid_objs is not None: self._oid_objs[self._oid] = o
        return self._oid
    def fresh(self, sort, base="v"):
        self._fresh += 1
        if sort is int: sort = z3.IntSort()
        if sort is bool: sort = z3.BoolSort()
        return z3.Const("%s!%d" % (base, self._fresh), sort)
    def int(self, base="n"): return self.fresh(int, base)
    def bool(self, base="b"): return self.fresh(bool, base)
    def func(self, base, *sorts):
        self._fresh += 1
        return z3.Function("%s!%d" % (base, self._fresh), *sorts)

    # -- path condition and solver
    def reset_path(self, prefix):
        self._oid = 0; self._oid_objs = {}
        self._fresh = 0; self._bv = 0
        self.prefix = prefix; self.dec = []
        self.pc = []
        self.solver = z3.Solver()
        self.solver.set("timeout", self.feas_ms)
        self.stamp = None
        self.frames = []
        self.loop_active = []
        self.trace = []
        self.line = None
        self.call_depth = 0
        self.writes = []
        self.ghost = {}
        self.hyps = []; self.known = {}
        for a in self.global_axioms: self._add(a)

    def _add(self, c):
        self.pc.append(c); self.solver.add(c)

    def assume(self, c):
        if isinstance(c, (list, tuple)):
            for x in c: self.assume(x)
            return
        if isinstance(c, Forall): c = c.as_z3(self)
        if isinstance(c, bool):
            if not c: raise PathEnd("assumed False")
            return
        self._add(c)

    def replaying(self): return len(self.dec) < len(self.prefix)

    def feasible(self, c):
        self.stats.queries += 1
        t = time.time()
        self.solver.push(); self.solver.add(c)
        r = self.solver.check()
        self.solver.pop()
        self.stats.solver_s += time.time() - t
        return r != z3.unsat

    def branch(self, c):
        """Decide a condition, forking if both outcomes are feasible."""
        if isinstance(c, bool): return c
        if not is_zbool(c): raise Unsupported("branch on %r" % (c,))
        s = z3.simplify(c)
        if z3.is_true(s): return True
        if z3.is_false(s): return False
        kn = self.known.get(s.get_id())
        if kn is not None: return kn[1]
        if self.replaying():
            d = self.prefix[len(self.dec)]
            self.dec.append(d); self.learn(s, d)
            self._add(c if d else z3.Not(c))
            return d
        t = self.feasible(c); f = self.feasible(z3.Not(c))
        if not t and not f: raise PathEnd("infeasible")
        if t and f:
            self.pending.append(self.dec + [False])
        d = t
        self.dec.append(d); self.learn(s, d)
        self._add(c if d else z3.Not(c))
        return d
    def learn(self, s, d):
        self.known[s.get_id()] = (s, d)
        n = z3.simplify(z3.Not(s)); self.known[n.get_id()] = (n, not d)

    def choose(self, n, what=""):
        """Nondeterministic choice 0..n-1 (all explored)."""
        if self.replaying():
            d = self.prefix[len(self.dec)]
            self.dec.append(d); return d
        for k in range(n - 1, 0, -1): self.pending.append(self.dec + [k])
        self.dec.append(0)
        return 0

    def case(self, *values):
        return values[self.choose(len(values))]

    # -- obligations
    def prove(self, label, cond, kind="post"):
        if isinstance(cond, (list, tuple)):
            for i, c in enumerate(cond):
                if isinstance(c, tuple): self.prove(label + "/" + c[0], c[1], kind)
                else: self.prove("%s#%d" % (label, i), c, kind)
            return
        if self.replaying():
            # already checked on the parent path; keep names aligned
            if isinstance(cond, Forall): cond.skolem(self)
            return
        if isinstance(cond, Forall): cond = cond.skolem(self)
        ob = Obligation(func=self.fname, label=label, path=len(self.dec), status="?", line=self.line)
        t0 = time.time()
        if isinstance(cond, bool):
            if cond:
                ob.status, ob.backend = "proved", "syntactic"
            else:
                r, m = self._check([])
                if r == "unsat": ob.status, ob.backend = "proved", "z3"
                else: ob.status, ob.model, ob.backend = ("failed" if r == "sat" else "unknown"), m, "z3"
        else:
            r, m = self._check([z3.Not(zb(cond))])
            ob.backend = self._backend
            if r == "unsat": ob.status = "proved"
            elif r == "sat": ob.status, ob.model = "failed", m
            else: ob.status = "unknown"
        ob.secs = time.time() - t0
        if ob.status != "proved":
            ob.detail = "condition: %s" % (str(cond)[:1500],)
        self.obligations.append(ob)
        if ob.status == "proved" and not isinstance(cond, bool):
            self._add(zb(cond))
        elif ob.status != "proved" and self.stop_on_fail:
            raise PathEnd("obligation failed")

    stop_on_fail = True
    bad0 = 0

    def _check(self, extra):
        self.stats.queries += 1
        t = time.time()
        s = z3.Solver()
        brief = self.bad0 + sum(o.status != "proved" for o in self.obligations) >= 3   # this function has failed already: do not spend long on the rest
        s.set("timeout", min(1500, self.timeout_ms) if brief else self.timeout_ms)
        s.add(*self.pc); s.add(*extra)
        r = s.check()
        self._backend = "z3"
        if brief: self.stats.solver_s += time.time() - t; return str(r), s.model() if r == z3.sat else None
        m = None
        if r == z3.sat:
            m = s.model()
        if r == z3.unknown:
            # second opinion: other z3 configuration, then cvc5
            s2 = z3.SolverFor("UFNIA") if False else z3.Solver()
            s2.set("timeout", self.timeout_ms); s2.set("random_seed", 7); s2.set("smt.arith.solver", 2)
            s2.add(*self.pc); s2.add(*extra)
            r = s2.check()
            if r == z3.sat: m = s2.model()
        if r == z3.unknown:
            r5 = self._cvc5(s)
            if r5:
                self._backend = "cvc5"; self.stats.cvc5 += 1
                self.stats.solver_s += time.time() - t
                return r5, None
        self.stats.solver_s += time.time() - t
        return str(r), m

    def _cvc5(self, solver):
        try:
            txt = "(set-logic ALL)\n" + solver.to_smt2()
            txt = txt.replace("(set-logic UNKNOWN)", "")
            with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
                f.write(txt); fn = f.name
            try:
                p = subprocess.run(["cvc5", "--tlimit=%d" % self.timeout_ms, fn], capture_output=True, text=True,
                                   timeout=self.timeout_ms / 1000 + 10)
                out = p.stdout.strip().splitlines()
                if out and out[0] in ("sat", "unsat"): return out[0]
            finally:
                os.unlink(fn)
        except Exception:
            pass
        return None

    # -- exploration
    def explore(self, run):
        while True:
            try:
                self._explore(run); return
            except Restart:
                self.obligations = []
                if self.stack0 is not None: self.restart = True; return   # a continuation: the whole function starts over
                continue

    def _explore(self, run):
        self.paths = 0
        stack = [[]] if self.stack0 is None else [list(x) for x in self.stack0]
        self.completed = 0; t0 = time.time(); self.leftover = []
        while stack:
            if self.slice_s and time.time() - t0 > self.slice_s: self.leftover = stack; return
            prefix = stack.pop()
            self.pending = []
            self.reset_path(prefix)
            self.paths += 1
            if self.paths > self.max_paths: raise Unsupported("too many paths")
            if self.deadline and time.time() > self.deadline: raise Unsupported("time budget for this function used up")
            try:
                run()
                self.completed += 1
            except PathEnd:
                pass
            stack.extend(self.pending)

    # ------------------------------------------------------------ writes
    def note_write(self, kind, obj, field):
        """Record a heap write (for frames)."""
        oid = obj.oid
        self.writes.append((kind, oid, field))
        for la in self.loop_active:
            if oid <= la["oid_limit"] and (oid, field) not in la["havoced"]:
                fs = self.loop_frames.setdefault(la["key"], set())
                if (oid, field) in fs: continue   # declared meanwhile
                fs.add((oid, field))
                raise Restart()

    def setfield(self, obj, name, value):
        self.note_write("field", obj, name)
        obj.fields[name] = value
    def seq_set(self, seq, **kw):
        self.note_write("seq", seq, "*")
        for k, v in kw.items(): setattr(seq, k, v)

    # ------------------------------------------------------------ names
    def resolve_global(self, m, name):
        v = m.globals.get(name, MISSING)
        if v is MISSING:
            if name in BUILTINS or name.startswith("cpp_"): return Builtin(name)
            if name == "__name__": return m.name
            raise PyRaise("NameError", name)
        if isinstance(v, tuple) and v and isinstance(v[0], str) and v[0].startswith("lazy"):
            k = v[0]
            if k == "lazymod":
                mm = self.P.module(v[1])
                r = mm if mm is not None else External(v[1])
            elif k == "lazyfrom":
                mod = v[1] or ""
                if v[3]:  # relative import
                    base = m.name.split(".")
                    if not m.path.endswith("__init__.py"): base = base[:-1]
                    base = base[:len(base) - (v[3] - 1)]
                    mod = ".".join(base + ([mod] if mod else []))
                sub = self.P.module((mod + "." if mod else "") + v[2])
                if sub is not None: r = sub
                else:
                    mm = self.P.module(mod)
                    if mm is None: r = External(mod + "." + v[2])
                    else: r = self.resolve_global(mm, v[2])
            elif k == "lazyclass":
                r = self.make_class(m, v[1])
            elif k == "lazyexpr":
                r = self.eval_const_global(m, v[1])
                m.globals[name] = v   # re-evaluated per path (heap objects are per path)
                return r
            elif k == "lazyitem":
                t = self.eval_const_global(m, v[1])
                return self.getitem(t, v[2])
            m.globals[name] = r
            return r
        return v

    def eval_const_global(self, m, expr):
        key = (m.name, id(expr))
        c = self.P.overlay.get(key, MISSING)
        if c is not MISSING: return c
        fr = Frame(None, {}, m)
        self.frames.append(fr)
        try: v = self.eval(expr)
        finally: self.frames.pop()
        if isinstance(v, (int, float, str, bool, type(None), tuple)) : self.P.overlay[key] = v
        return v

    def make_class(self, m, node):
        bases = []
        fr = Frame(None, {}, m)
        self.frames.append(fr)
        try:
            for b in node.bases:
                try: bases.append(self.eval(b))
                except (Unsupported, PyRaise): bases.append(Builtin("object"))
            c = ClassV(m, node, node.name, bases)
            for s in node.body:
                if isinstance(s, ast.FunctionDef):
                    c.attrs[s.name] = FuncV(m, s, node.name + "." + s.name, cls=c)
                elif isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name):
                    c.attrs[s.targets[0].id] = ("lazyexpr", s.value)
                elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                    c.attrs[s.target.id] = ("lazyexpr", s.value)
        finally: self.frames.pop()
        return c

    def cls(self, dotted, name):
        m = self.P.module(dotted)
        if m is None: raise Unsupported("no module " + dotted)
        v = self.resolve_global(m, name)
        if not isinstance(v, ClassV): raise Unsupported("no class %s in %s" % (name, dotted))
        return v

    def new(self, dotted, name, **fields):
        return Obj(self, self.cls(dotted, name), fields)

    def lookup(self, name):
        fr = self.frames[-1]
        if name in fr.locals:
            v = fr.locals[name]
            if v is MISSING: raise PyRaise("UnboundLocalError", name)
            return v
        if fr.func is not None and name in assigned_names_cached(fr.func.node) and not self.declared_global(fr, name):
            raise PyRaise("UnboundLocalError", name)
        c = fr.closure
        while c is not None:
            if name in c.locals: return c.locals[name]
            c = c.closure
        return self.resolve_global(fr.module, name)

    def declared_global(self, fr, name):
        for n in ast.walk(fr.func.node):
            if isinstance(n, (ast.Global, ast.Nonlocal)) and name in n.names: return True
        return False

    # ------------------------------------------------------------ truth
    def truth(self, v):
        """Python truthiness as bool or z3 Bool."""
        if isinstance(v, bool): return v
        if is_zbool(v): return v
        if isinstance(v, Opaque): return self.bool("unk")
        if is_zint(v): return v != 0
        if v is None: return False
        if isinstance(v, (int, float, str)): return bool(v)
        if isinstance(v, tuple): return len(v) > 0
        if isinstance(v, PyList): return len(v.items) > 0
        if isinstance(v, SymSeq): return self.seq_len(v) != 0 if is_z(v.length) else v.length != 0
        if isinstance(v, PyDict): return len(v.d) > 0
        if isinstance(v, PySet): return len(v.items) > 0
        if isinstance(v, Obj):
            h = self.ext_hook(v, "truth")
            if h is not None: return h(self, v)
            if isinstance(v.cls, ClassV):
                f = v.cls.lookup("__bool__")
                if f is not MISSING: return self.truth(self.call(BoundM(f, v), [], {}))
                f = v.cls.lookup("__len__")
                if f is not MISSING: return self.truth(self.call(BoundM(f, v), [], {}))
                if v.cls.builtin_base() in (None, "object"): return True
                if "__items__" in v.fields: return self.truth(v.fields["__items__"])
                raise Unsupported("truth of %r" % v)
            return True
        if isinstance(v, (FuncV, ClassV, BoundM, Builtin, ModuleV)): return True
        if isinstance(v, SymSet) or isinstance(v, SymMap):
            h = getattr(v, "nonempty", None)
            if h is not None: return h()
        raise Unsupported("truth of %r" % (v,))

    def test(self, v): return self.branch(self.truth(v))

    def seq_len(self, v): return v.length

    def ext_hook(self, obj, what):
        c = obj.cls
        names = [k.name for k in c.mro()] if isinstance(c, ClassV) else [str(c)]
        for n in names:
            h = self.exts.get((n, what))
            if h is not None: return h
        return None

    # ------------------------------------------------------------ compare
    def eq(self, a, b):
        if a is b and not isinstance(a, Opaque): return True
        if isinstance(a, Opaque) or isinstance(b, Opaque): return self.bool("unk")
        if is_z(a) or is_z(b):
            if a is None or b is None: return False
            if isinstance(a, (str, tuple)) or isinstance(b, (str, tuple)): return False
            if isinstance(a, float) or isinstance(b, float):
                o = a if isinstance(a, float) else b
                if math.isinf(o): return False
                raise Unsupported("float ==")
            if isinstance(a, Obj) or isinstance(b, Obj):
                return self.obj_eq(a, b)
            if is_z(a) and is_z(b):
                if a.sort() == b.sort(): return a == b
                if {str(a.sort()), str(b.sort())} <= {"Int", "Bool"}: return zi(a) == zi(b)
                return False
            x, y = (a, b) if is_z(a) else (b, a)
            if isinstance(y, bool) or isinstance(y, int):
                if z3.is_int(x): return x == int(y)
                if z3.is_bool(x): return zi(x) == int(y)
                h = self.exts.get(("sort:" + str(x.sort()), "const"))
                if h: return x == h(self, y)
                raise Unsupported("== between %s and int" % x.sort())
            return False
        if isinstance(a, Obj) or isinstance(b, Obj): return self.obj_eq(a, b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b): return False
            return And(*[self.truth_eq(x, y) for x, y in zip(a, b)])
        if isinstance(a, PyList) and isinstance(b, PyList):
            if (a.kind == "deque") != (b.kind == "deque"): return False
            if len(a.items) != len(b.items): return False
            return And(*[self.truth_eq(x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, (SymSeq, PyList)) and isinstance(b, (SymSeq, PyList)):
            return self.seq_eq(a, b)
        if isinstance(a, PyDict) and isinstance(b, PyDict):
            if set(a.d) != set(b.d): return False
            return And(*[self.truth_eq(a.d[k], b.d[k]) for k in a.d])
        if isinstance(a, (int, float, str, bool, type(None))) and isinstance(b, (int, float, str, bool, type(None))):
            return a == b
        if isinstance(a, (FuncV, ClassV, Builtin, External)) or isinstance(b, (FuncV, ClassV, Builtin, External)):
            if isinstance(a, External) and isinstance(b, External): return a.path == b.path
            return a == b
        ta, tb = type(a).__name__, type(b).__name__
        if a is None or b is None: return False
        if {ta, tb} <= {"tuple", "PyList", "SymSeq", "PyDict", "str", "int", "bool", "float"} and ta != tb: return False
        raise Unsupported("== between %s and %s" % (ta, tb))

    def truth_eq(self, a, b): return self.truth(self.eq(a, b))

    def seq_at(self, s, i):
        if isinstance(s, SymSeq): return s.get(zi(i))
        raise Unsupported("seq_at")

    def seq_eq(self, a, b):
        """Equality of two sequences, one of symbolic length: decided by a
        fresh Boolean defined by the quantified equality."""
        la = a.length if isinstance(a, SymSeq) else len(a.items)
        lb = b.length if isinstance(b, SymSeq) else len(b.items)
        def at(s, i):
            if isinstance(s, SymSeq): return s.get(i)
            r = s.items[-1]
            for k in range(len(s.items) - 2, -1, -1): r = Ite(i == k, s.items[k], r)
            return r
        if isinstance(a, PyList) and not a.items: return lb == 0
        if isinstance(b, PyList) and not b.items: return la == 0
        e = self.bool("seqeq")
        w = self.int("seqwit")
        # e -> equal everywhere ; not e -> lengths differ or a witness differs
        self.assume(Implies(e, zi(la) == zi(lb)))
        fa = Forall([z3.IntSort()], lambda i: Implies(And(e, 0 <= i, i < zi(la)), self.truth_eq(at(a, i), at(b, i))))
        self.assume(fa)
        self.assume(Implies(Not(e), Or(zi(la) != zi(lb), And(0 <= w, w < zi(la), Not(self.truth_eq(at(a, w), at(b, w)))))))
        return e

    def obj_eq(self, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Obj):
                h = self.ext_hook(x, "eq")
                if h is not None: return h(self, x, y)
                if isinstance(x.cls, ClassV):
                    f = x.cls.lookup("__eq__")
                    if f is not MISSING:
                        return self.truth(self.call(BoundM(f, x), [y], {}))
                    if "__items__" in x.fields:   # tuple/list subclasses
                        yy = y.fields["__items__"] if isinstance(y, Obj) and "__items__" in y.fields else y
                        return self.eq(x.fields["__items__"], yy)
        return a is b

    def identical(self, a, b):
        if a is None or b is None: return a is b
        if isinstance(a, float) and isinstance(b, float): return a == b  # math.inf singleton
        if isinstance(a, float) or isinstance(b, float): return False
        if isinstance(a, bool) and isinstance(b, bool): return a == b
        if isinstance(a, (Obj, PyList, SymSeq, PyDict, ClassV, FuncV, SymMap)) or isinstance(b, (Obj, PyList, SymSeq, PyDict, ClassV, FuncV, SymMap)):
            return a is b
        if isinstance(a, Builtin) or isinstance(b, Builtin): return a == b
        if isinstance(a, str) and isinstance(b, str): return a == b
        if isinstance(a, int) and isinstance(b, int) and abs(a) < 200: return a == b
        raise Unsupported("`is` between %r and %r" % (a, b))

    def less(self, a, b):
        """a < b"""
        if isinstance(a, Opaque) or isinstance(b, Opaque): return self.bool("unk")     # nothing known: either outcome
        if isinstance(a, float) and math.isinf(a):
            if isinstance(b, float): return a < b
            if is_num(b): return a < 0
        if isinstance(b, float) and math.isinf(b) and (is_num(a) or is_zint(a)): return b > 0
        if is_z(a) or is_z(b):
            if (is_num(a) or isinstance(a, bool) or is_zbool(a)) and (is_num(b) or isinstance(b, bool) or is_zbool(b)):
                return zi(a) < zi(b)
        elif isinstance(a, (int, float, bool)) and isinstance(b, (int, float, bool)): return a < b
        elif isinstance(a, str) and isinstance(b, str): return a < b
        elif isinstance(a, tuple) and isinstance(b, tuple):
            if not a: return len(b) > 0
            if not b: return False
            l = self.truth(self.less(a[0], b[0]))
            e = self.truth_eq(a[0], b[0])
            return Or(l, And(e, self.truth(self.less(a[1:], b[1:]))))
        elif isinstance(a, PyList) and isinstance(b, PyList): return self.less(tuple(a.items), tuple(b.items))
        for x in (a, b):
            if isinstance(x, Obj) and not isinstance(x.cls, ClassV):
                h = self.exts.get((x.cls, "less"))
                if h is not None: return h(self, a, b)
        if isinstance(a, Obj) and isinstance(a.cls, ClassV):
            f = a.cls.lookup("__lt__")
            if f is not MISSING: return self.truth(self.call(BoundM(f, a), [b], {}))
        raise Unsupported("< between %r and %r" % (a, b))

    def compare(self, op, a, b):
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            return Not(self.truth(self.eq(a, b)))
        for x in (a, b):
            if isinstance(x, Obj) and ("compare", x.cls) in self.exts and isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                r = self.exts[("compare", x.cls)](self, op, a, b)
                if r is not MISSING: return r
        if isinstance(op, ast.Is): return self.identical(a, b)
        if isinstance(op, ast.IsNot): return Not(self.identical(a, b))
        for x, y, nm in ((a, b, {ast.Lt: "__lt__", ast.LtE: "__le__", ast.Gt: "__gt__", ast.GtE: "__ge__"}.get(type(op))),):
            if isinstance(x, Obj) and isinstance(x.cls, ClassV) and nm:
                h = self.ext_hook(x, nm)
                if h is not None: return h(self, x, y)
                f = x.cls.lookup(nm)
                if f is not MISSING: return self.call(BoundM(f, x), [y], {})
        if isinstance(op, ast.Lt): return self.less(a, b)
        if isinstance(op, ast.Gt): return self.less(b, a)
        if isinstance(op, ast.LtE):
            if isinstance(a, (PySet, SymSet)): raise Unsupported("subset")
            return Not(self.truth(self.less(b, a)))
        if isinstance(op, ast.GtE): return Not(self.truth(self.less(a, b)))
        if isinstance(op, ast.In): return self.contains(b, a)
        if isinstance(op, ast.NotIn): return Not(self.truth(self.contains(b, a)))
        raise Unsupported(ast.dump(op))

    def contains(self, c, x):
        if isinstance(c, tuple): return Or(*[self.truth_eq(y, x) for y in c]) if c else False
        if isinstance(c, (PyList, PySet)): return Or(*[self.truth_eq(y, x) for y in c.items]) if c.items else False
        if isinstance(c, PyDict): return Or(*[self.truth_eq(self.unkey(y), x) for y in c.d]) if c.d else False
        if isinstance(c, (SymMap, SymSet)): return c.has(x)
        if isinstance(c, str) and isinstance(x, str): return x in c
        if isinstance(c, Obj):
            h = self.ext_hook(c, "contains")
            if h is not None: return h(self, c, x)
            f = c.cls.lookup("__contains__") if isinstance(c.cls, ClassV) else MISSING
            if f is not MISSING: return self.truth(self.call(BoundM(f, c), [x], {}))
        raise Unsupported("in %r" % (c,))

    # ------------------------------------------------------------ arithmetic
    def binop(self, op, a, b):
        if isinstance(a, Obj) or isinstance(b, Obj):
            r = self.obj_binop(op, a, b)
            if r is not MISSING: return r
        if (isinstance(a, Opaque) or isinstance(b, Opaque)) and not isinstance(op, ast.Mod): return Opaque("arith")
        conc = (int, float, bool)
        if isinstance(a, conc) and isinstance(b, conc):
            return self.conc_binop(op, a, b)
        if isinstance(op, ast.Add):
            if isinstance(a, str) and isinstance(b, str): return a + b
            if isinstance(a, tuple) and isinstance(b, tuple): return a + b
            if isinstance(a, PyList) and isinstance(b, PyList): return PyList(self, a.items + b.items)
            if isinstance(a, (SymSeq, PyList)) and isinstance(b, (SymSeq, PyList)): return self.seq_concat(a, b)
        if isinstance(op, ast.Mult):
            if isinstance(a, PyList) and is_zint(b) and ("listmul", "*") in self.exts: return self.exts[("listmul", "*")](self, a, b)
            if isinstance(a, PyList) and is_num(b): return self.list_mul(a, b)
            if isinstance(b, PyList) and is_num(a): return self.list_mul(b, a)
            if isinstance(a, tuple) and isinstance(b, int): return a * b
            if isinstance(a, str) and isinstance(b, int): return a * b
            if isinstance(a, tuple) and is_zint(b):
                return self.list_mul(PyList(self, a), b)
        if isinstance(op, ast.Mod) and isinstance(a, str) and ("str", "%") in self.exts:
            r = self.exts[("str", "%")](self, a, b)
            if r is not MISSING: return r
        if isinstance(op, ast.Mod) and isinstance(a, (str, Opaque)): return Opaque("str%")
        if isinstance(a, (str, Opaque)) and isinstance(b, (str, Opaque)) and isinstance(op, ast.Add): return Opaque("str+")
        numk = lambda x: isinstance(x, (int, bool)) or is_zint(x) or is_zbool(x)
        if isinstance(a, float) or isinstance(b, float):
            f, o = (a, b) if isinstance(a, float) else (b, a)
            if math.isinf(f) and isinstance(op, (ast.Add,)): return f
            if math.isinf(f) and isinstance(op, ast.Sub): return a if isinstance(a, float) else -b
            raise Unsupported("float arithmetic")
        if numk(a) and numk(b):
            x, y = zi(a), zi(b)
            if isinstance(op, ast.Add): return x + y
            if isinstance(op, ast.Sub): return x - y
            if isinstance(op, ast.Mult): return x * y
            if isinstance(op, (ast.FloorDiv, ast.Mod)):
                if self.branch(y == 0): raise PyRaise("ZeroDivisionError")
                q, r = self.floordivmod(x, y)
                return q if isinstance(op, ast.FloorDiv) else r
            if isinstance(op, ast.Pow): return self.power(x, y)
            if isinstance(op, (ast.LShift,)) and isinstance(b, int): return x * (2 ** b)
            if isinstance(op, (ast.RShift,)) and isinstance(b, int):
                return self.floordivmod(x, zi(2 ** b))[0]
            if isinstance(op, ast.BitAnd) and isinstance(b, int) and b >= 0 and (b & (b + 1)) == 0:
                return self.floordivmod(x, zi(b + 1))[1]
            if isinstance(op, ast.BitOr):
                h = self.exts.get(("int", "bitor"))
                if h: return h(self, x, y)
        raise Unsupported("binop %s on %r, %r" % (type(op).__name__, a, b))

    def floordivmod(self, x, y):
        """Python floor division: x = q*y + r, 0<=r<y (y>0) or y<r<=0 (y<0)."""
        ys = z3.simplify(y)
        for x0, y0, z in self.ghost.get("exact", ()):
            if z3.eq(x0, x) and z3.eq(y0, y): return z, z3.IntVal(0)      # x == y*z is a known fact
        if z3.is_int_value(ys):
            v = ys.as_long()
            if v > 0: return x / y, x % y
        else:
            if self.branch(y > 0):
                q, r = self.int("q"), self.int("r")
                self.assume([x == q * y + r, r >= 0, r < y])
                self.ghost.setdefault("divs", []).append((x, y, q, r))
                return q, r
        q, r = self.int("q"), self.int("r")
        self.assume([x == q * y + r, r <= 0, r > y])
        self.ghost.setdefault("divs", []).append((x, y, q, r))
        return q, r

    def conc_binop(self, op, a, b):
        try:
            if isinstance(op, ast.Add): return a + b
            if isinstance(op, ast.Sub): return a - b
            if isinstance(op, ast.Mult): return a * b
            if isinstance(op, ast.FloorDiv): return a // b
            if isinstance(op, ast.Mod): return a % b
            if isinstance(op, ast.Div): return a / b
            if isinstance(op, ast.Pow): return a ** b
            if isinstance(op, ast.LShift): return a << b
            if isinstance(op, ast.RShift): return a >> b
            if isinstance(op, ast.BitAnd): return a & b
            if isinstance(op, ast.BitOr): return a | b
            if isinstance(op, ast.BitXor): return a ^ b
        except ZeroDivisionError:
            raise PyRaise("ZeroDivisionError")
        except OverflowError:
            raise Unsupported("overflow")
        raise Unsupported("binop")

    def power(self, x, y):
        ys = z3.simplify(y)
        if z3.is_int_value(ys) and 0 <= ys.as_long() <= 8:
            r = z3.IntVal(1)
            for _ in range(ys.as_long()): r = r * x
            return r
        h = self.exts.get(("int", "pow"))
        if h: return h(self, x, y)
        raise Unsupported("symbolic power")

    DUNDER = {ast.Add: ("__add__", "__radd__"), ast.Sub: ("__sub__", "__rsub__"), ast.Mult: ("__mul__", "__rmul__"),
              ast.FloorDiv: ("__floordiv__", "__rfloordiv__"), ast.Mod: ("__mod__", "__rmod__"), ast.Pow: ("__pow__", "__rpow__"),
              ast.Div: ("__truediv__", "__rtruediv__")}
    def obj_binop(self, op, a, b):
        for x in (a, b):
            if isinstance(x, Obj) and not isinstance(x.cls, ClassV):
                h = self.exts.get(("binop", x.cls))
                if h is not None: return h(self, op, a, b)
        l, r = self.DUNDER.get(type(op), (None, None))
        for x, y, nm in ((a, b, l), (b, a, r)):
            if isinstance(x, Obj) and isinstance(x.cls, ClassV) and nm:
                h = self.ext_hook(x, nm)
                if h is not None: return h(self, x, y)
                f = x.cls.lookup(nm)
                if f is not MISSING:
                    f = self.class_attr(x.cls, nm)
                    v = self.call(BoundM(f, x), [y], {})
                    if isinstance(v, Builtin) and v.name == "NotImplemented": continue
                    return v
        return MISSING

    def list_mul(self, l, n):
        if isinstance(n, int): return PyList(self, l.items * n, l.kind)
        if len(l.items) != 1: raise Unsupported("list repetition")
        x = l.items[0]
        if isinstance(x, (Obj, PyList, SymSeq)): raise Unsupported("repeating a mutable object")
        n = Ite(n >= 0, n, 0)
        return SymSeq(self, (lambda i, x=x: x), n, l.kind)

    def seq_concat(self, a, b):
        la = a.length if isinstance(a, SymSeq) else len(a.items)
        lb = b.length if isinstance(b, SymSeq) else len(b.items)
        ga, gb = self.getter(a), self.getter(b)
        if ga is None: return SymSeq(self, gb, lb)
        if gb is None: return SymSeq(self, ga, la)
        r = SymSeq(self, lambda i: Ite(i < la, ga(i), gb(i - la)), la + lb)
        r.parts = (a, b)
        return r

    def getter(self, s):
        if isinstance(s, SymSeq): return s.get
        items = list(s.items) if isinstance(s, PyList) else list(s)
        if not items: return None
        def g(i):
            r = items[-1]
            for k in range(len(items) - 2, -1, -1): r = Ite(i == k, items[k], r)
            return r
        return g

    # ------------------------------------------------------------ attributes
    def class_attr(self, c, name):
        for k in c.mro():
            if name in k.attrs:
                v = k.attrs[name]
                if isinstance(v, tuple) and v and v[0] == "lazyexpr":
                    fr = Frame(None, dict((n, x) for n, x in k.attrs.items() if not (isinstance(x, tuple) and x and x[0] == "lazyexpr")), k.module)
                    self.frames.append(fr)
                    try: r = self.eval(v[1])
                    finally: self.frames.pop()
                    if isinstance(r, (int, float, str, bool, type(None), FuncV)): k.attrs[name] = r
                    return r
                return v
        return MISSING

    def getattr(self, o, name):
        if isinstance(o, Obj):
            if name in o.fields: return o.fields[name]
            h = self.ext_hook(o, "attr")
            if h is not None:
                r = h(self, o, name)
                if r is not MISSING: return r
            if name == "__class__": return o.cls
            if isinstance(o.cls, ClassV):
                v = self.class_attr(o.cls, name)
                if v is not MISSING:
                    if isinstance(v, FuncV):
                        if "staticmethod" in v.decorators: return v
                        if "classmethod" in v.decorators: return BoundM(v, o.cls)
                        if "property" in v.decorators: return self.call(BoundM(v, o), [], {})
                        return BoundM(v, o)
                    return v
                if name == "__dict__": raise Unsupported("__dict__")
                if "__items__" in o.fields: return BoundM(Builtin("method:" + name), o.fields["__items__"])
            raise PyRaise("AttributeError", "%r has no %s" % (o, name))
        if isinstance(o, ModuleV):
            h = self.exts.get(("external", o.name + "." + name))
            if h is not None: return h
            v = o.globals.get(name, MISSING)
            if v is MISSING:
                sub = self.P.module(o.name + "." + name)
                if sub is not None: return sub
                if o.name.endswith("_pb2"): return External(o.name + "." + name)
                raise PyRaise("AttributeError", "module %s has no attribute %s" % (o.name, name))
            return self.resolve_global(o, name)
        if isinstance(o, ClassV):
            v = self.class_attr(o, name)
            if v is MISSING:
                if name == "__name__": return o.name
                raise PyRaise("AttributeError", name)
            if isinstance(v, FuncV) and "classmethod" in v.decorators: return BoundM(v, o)
            return v
        if isinstance(o, External):
            p = o.path + "." + name
            if p == "math.inf": return math.inf
            if p in EXTERNAL_CONST: return EXTERNAL_CONST[p]
            h = self.exts.get(("external", p))
            if h is not None and not callable(h): return h
            return External(p)
        if isinstance(o, (PyList, SymSeq, PyDict, PySet, SymMap, SymSet, str, tuple, Opaque)) or is_num(o) or is_z(o) or isinstance(o, bool):
            if isinstance(o, Opaque): return Opaque(o.why + "." + name)
            if is_z(o) or isinstance(o, (int, float)):
                h = self.exts.get(("sort:" + (str(o.sort()) if is_z(o) else "Int"), "attr"))
                if h is not None:
                    r = h(self, o, name)
                    if r is not MISSING: return r
                if name in ("is_const",): raise PyRaise("AttributeError", name)
            return BoundM(Builtin("method:" + name), o)
        if isinstance(o, Builtin):
            return Builtin(o.name + "." + name)
        if o is None: raise PyRaise("AttributeError", "None.%s" % name)
        raise Unsupported("attribute %s of %r" % (name, o))

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            h = self.ext_hook(o, "setattr")
            if h is not None and h(self, o, name, v): return
            self.setfield(o, name, v); return
        if isinstance(o, ClassV):
            if name in self.quiet_attrs: return
            o.attrs[name] = v; self.writes.append(("class", o.name, name)); return
        if isinstance(o, Opaque): return
        raise Unsupported("setattr on %r" % (o,))

    # ------------------------------------------------------------ items
    def unkey(self, k):
        if isinstance(k, tuple) and len(k) == 2 and k[0] == "__z__": return k[1].e
        return k
    def dict_get(self, d, k):
        """Return (found?, value) deciding symbolic key equality by branching."""
        for kk in list(d.d):
            if self.branch(self.truth_eq(self.unkey(kk), k)): return True, d.d[kk]
        return False, None
    def dict_set(self, d, k, v):
        for kk in list(d.d):
            if self.branch(self.truth_eq(self.unkey(kk), k)):
                self.note_write("dict", d, "*"); d.d[kk] = v; return
        self.note_write("dict", d, "*")
        d.d[self.mkkey(k)] = v
    def mkkey(self, k):
        if is_z(k): return ("__z__", _ZKey(k))
        if isinstance(k, tuple): return tuple(self.mkkey(x) if is_z(x) else x for x in k) if not any(is_z(x) or isinstance(x,(PyList,Obj)) for x in k) else ("__z__", _ZKey(k))
        if isinstance(k, (PyList, SymSeq, PyDict)): raise PyRaise("TypeError", "unhashable")
        return k

    def index_norm(self, i, n):
        """Normalise a Python index; raises IndexError on the failing path."""
        if isinstance(i, bool): i = int(i)
        if is_zbool(i): i = zi(i)
        if isinstance(i, int) and isinstance(n, int):
            j = i + n if i < 0 else i
            if not 0 <= j < n: raise PyRaise("IndexError")
            return j
        if isinstance(i, int):
            j = n + i if i < 0 else i
            c = (j >= 0) if i < 0 else (n > i)
            if not self.branch(zb(c) if is_z(c) else c): raise PyRaise("IndexError")
            return j
        if self.branch(i < 0):
            j = i + n
            if not self.branch(j >= 0): raise PyRaise("IndexError")
            return j
        if not self.branch(i < n): raise PyRaise("IndexError")
        return i

    def getitem(self, o, k):
        if isinstance(o, Obj):
            h = self.ext_hook(o, "getitem")
            if h is not None: return h(self, o, k)
            if "__items__" in o.fields: return self.getitem(o.fields["__items__"], k)
            f = o.cls.lookup("__getitem__") if isinstance(o.cls, ClassV) else MISSING
            if f is not MISSING: return self.call(BoundM(f, o), [k], {})
        if isinstance(k, slice): return self.getslice(o, k)
        if isinstance(o, (tuple, PyList)):
            items = o if isinstance(o, tuple) else o.items
            if is_zbool(k): k = 1 if self.branch(k) else 0
            if is_zint(k):
                # concretise by splitting
                j = self.index_norm(k, len(items))
                if isinstance(j, int): return items[j]
                for t in range(len(items)):
                    if self.branch(j == t): return items[t]
                raise PathEnd("no index")
            if not isinstance(k, int): raise Unsupported("index %r" % (k,))
            return items[self.index_norm(k, len(items))]
        if isinstance(o, SymSeq):
            j = self.index_norm(k, o.length)
            return o.get(zi(j))
        if isinstance(o, PyDict):
            ok, v = self.dict_get(o, k)
            if not ok: raise PyRaise("KeyError", repr(k))
            return v
        if isinstance(o, SymMap):
            if not self.branch(zb(o.has(k))): raise PyRaise("KeyError")
            return o.get(k)
        if isinstance(o, str):
            if isinstance(k, int):
                try: return o[k]
                except IndexError: raise PyRaise("IndexError")
            if is_zint(k):
                h = self.exts.get(("str", "getitem"))
                if h is not None: return h(self, o, k)
                j = self.index_norm(k, len(o))
                for t in range(len(o)):
                    if self.branch(j == t): return o[t]
                raise PathEnd("no index")
        if isinstance(o, Opaque): return Opaque("item")
        raise Unsupported("getitem on %r" % (o,))

    def getslice(self, o, s):
        a, b, c = s.start, s.stop, s.step
        conc = all(x is None or isinstance(x, int) for x in (a, b, c))
        if isinstance(o, str) and conc: return o[s]
        if isinstance(o, tuple) and conc: return o[s]
        if isinstance(o, PyList) and conc: return PyList(self, o.items[s])
        if isinstance(o, SymSeq) and c is None:
            n = o.length
            def norm(x, d):
                if x is None: return d
                x = zi(x)
                x = Ite(x < 0, Ite(x + n < 0, 0, x + n), x)
                return Ite(x > n, n, x)
            lo, hi = zi(norm(a, 0)), zi(norm(b, n))
            g = o.get
            r = SymSeq(self, lambda i: g(i + lo), Ite(hi > lo, hi - lo, 0), "list")
            r.src = (o, lo, hi)
            return r
        raise Unsupported("slice of %r" % (o,))

    def setitem(self, o, k, v):
        if isinstance(o, Obj):
            h = self.ext_hook(o, "setitem")
            if h is not None: return h(self, o, k, v)
            f = o.cls.lookup("__setitem__") if isinstance(o.cls, ClassV) else MISSING
            if f is not MISSING: return self.call(BoundM(f, o), [k, v], {})
        if isinstance(o, PyList):
            if is_zbool(k): k = 1 if self.branch(k) else 0
            if is_zint(k):
                j = self.index_norm(k, len(o.items))
                for t in range(len(o.items)):
                    if self.branch(j == t):
                        self.note_write("list", o, "*"); o.items[t] = v; return
                raise PathEnd("no index")
            if not isinstance(k, int): raise Unsupported("list store index")
            j = self.index_norm(k, len(o.items))
            self.note_write("list", o, "*"); o.items[j] = v; return
        if isinstance(o, SymSeq):
            j = zi(self.index_norm(k, o.length))
            g = o.get
            self.seq_set(o, get=lambda i, g=g, j=j, v=v: Ite(i == j, v, g(i))); return
        if isinstance(o, PyDict):
            self.dict_set(o, k, v); return
        if isinstance(o, SymMap):
            h, g = o.has, o.get
            self.note_write("map", o, "*"); o.order = None
            o.has = lambda x, h=h, k=k: Or(self.truth_eq(x, k), h(x))
            o.get = lambda x, g=g, k=k, v=v: Ite(zb(self.truth_eq(x, k)), v, g(x)); return
        raise Unsupported("setitem on %r" % (o,))

    # ------------------------------------------------------------ expressions
    def eval(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None: raise Unsupported("expression %s (line %s)" % (type(e).__name__, getattr(e, "lineno", "?")))
        return m(e)

    def e_Constant(self, e):
        if isinstance(e.value, bytes): raise Unsupported("bytes")
        return e.value
    def e_Name(self, e): return self.lookup(e.id)
    def e_Attribute(self, e): return self.getattr(self.eval(e.value), e.attr)
    def e_Tuple(self, e): return tuple(self.eval_list(e.elts))
    def e_List(self, e): return PyList(self, self.eval_list(e.elts))
    def e_Set(self, e): return PySet(self, self.dedup(self.eval_list(e.elts)))
    def dedup(self, xs):
        out = []
        for x in xs:
            dup = False
            for y in out:
                if self.branch(self.truth_eq(x, y)): dup = True; break
            if not dup: out.append(x)
        return out
    def e_Dict(self, e):
        d = PyDict(self)
        for k, v in zip(e.keys, e.values):
            if k is None: raise Unsupported("** in dict")
            kk = self.eval(k); d.d[self.mkkey(kk)] = self.eval(v)
        return d
    def eval_list(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value); h = self.exts.get(("star", "*")); r = h(self, v) if h is not None else MISSING
                out.extend(self.iter_concrete(v) if r is MISSING else r)
            else: out.append(self.eval(x))
        return out
    def e_BinOp(self, e):
        a = self.eval(e.left); b = self.eval(e.right)
        return self.binop(e.op, a, b)
    def e_UnaryOp(self, e):
        if isinstance(e.op, ast.Not):
            return Not(self.truth(self.eval(e.operand)))
        v = self.eval(e.operand)
        if isinstance(e.op, ast.USub):
            if isinstance(v, Obj):
                h = self.ext_hook(v, "__neg__")
                if h is not None: return h(self, v)
                f = self.class_attr(v.cls, "__neg__") if isinstance(v.cls, ClassV) else MISSING
                if f is not MISSING: return self.call(BoundM(f, v), [], {})
            if isinstance(v, (int, float)): return -v
            return -zi(v)
        if isinstance(e.op, ast.UAdd): return v
        if isinstance(e.op, ast.Invert) and isinstance(v, int): return ~v
        raise Unsupported("unary")
    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)
        for i, x in enumerate(e.values):
            v = self.eval(x)
            if i == len(e.values) - 1: return v
            t = self.test(v)
            if isand and not t: return v if not is_z(v) else False if is_zbool(v) else v
            if not isand and t: return v if not is_z(v) else True if is_zbool(v) else v
    def e_Compare(self, e):
        a = self.eval(e.left)
        res = None
        for op, r in zip(e.ops, e.comparators):
            b = self.eval(r)
            c = self.compare(op, a, b)
            last = op is e.ops[-1]
            if last:
                return c
            if not self.test(c): return False
            a = b
    def e_IfExp(self, e):
        return self.eval(e.body) if self.test(self.eval(e.test)) else self.eval(e.orelse)
    def e_JoinedStr(self, e):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant): out.append(v.value)
            else:
                try: x = self.eval(v.value)
                except PyRaise: raise
                if isinstance(x, (str, int)) and not isinstance(x, bool) and v.format_spec is None and v.conversion == -1: out.append(str(x))
                else: return Opaque("fstring")
        return "".join(out)
    def e_Lambda(self, e):
        return FuncV(self.frames[-1].module, e, "<lambda>", closure=self.frames[-1])
    def e_Subscript(self, e):
        o = self.eval(e.value)
        if isinstance(o, Builtin): return o
        return self.getitem(o, self.eval_slice(e.slice))
    def eval_slice(self, s):
        if isinstance(s, ast.Slice):
            return slice(self.eval(s.lower) if s.lower else None, self.eval(s.upper) if s.upper else None, self.eval(s.step) if s.step else None)
        return self.eval(s)
    def e_Starred(self, e): raise Unsupported("starred")
    def e_NamedExpr(self, e):
        v = self.eval(e.value); self.assign(e.target, v); return v
    def e_ListComp(self, e): return PyList(self, self.comp(e)) if not self.sym_comp(e) else self.do_sym_comp(e)
    def e_SetComp(self, e):
        if self.sym_comp(e) and ("setcomp", "*") in self.exts: return self.exts[("setcomp", "*")](self, self._symit, e)
        return PySet(self, self.dedup(self.comp(e)))
    def e_GeneratorExp(self, e):
        return PyList(self, self.comp(e)) if not self.sym_comp(e) else self.do_sym_comp(e)
    def e_DictComp(self, e):
        h = self.exts.get(("dictcomp", "*"))
        if h is not None:
            r = h(self, e)
            if r is not MISSING: return r
        d = PyDict(self)
        def emit():
            k = self.eval(e.key); self.dict_set(d, k, self.eval(e.value))
        self.comp_loop(e.generators, 0, emit)
        return d
    def comp(self, e):
        out = []
        self.comp_loop(e.generators, 0, lambda: out.append(self.eval(e.elt)))
        return out
    def comp_loop(self, gens, i, emit):
        if i == 0:
            fr = self.frames[-1]
            nf = Frame(fr.func, dict(fr.locals), fr.module, fr.closure)
            it = self.eval(gens[0].iter)
            self.frames.append(nf)
            try: self._comp_loop(gens, 0, emit, it)
            finally: self.frames.pop()
        else: self._comp_loop(gens, i, emit, self.eval(gens[i].iter))
    def _comp_loop(self, gens, i, emit, it):
        g = gens[i]
        for x in self.iter_concrete(it):
            self.assign(g.target, x)
            if all(self.test(self.eval(c)) for c in g.ifs):
                if i + 1 < len(gens): self.comp_loop(gens, i + 1, emit)
                else: emit()
    def sym_comp(self, e):
        if len(e.generators) != 1: return False
        self._symit = self.eval(e.generators[0].iter)
        h = self.comp_hook
        if isinstance(self._symit, SymRange) and ("compelt", "*") in self.exts: return True
        if isinstance(self._symit, SymSeq): return True
        if isinstance(self._symit, Obj) and self.ext_hook(self._symit, "comp") is not None: return True
        return False
    comp_hook = None
    post_mode = False
    def do_sym_comp(self, e):
        """[f(x) for x in seq if c(x)] over a symbolic sequence."""
        it = self._symit
        if isinstance(it, Obj): return self.ext_hook(it, "comp")(self, it, e)
        g = e.generators[0]
        h = self.exts.get(("comp", self.fname)) or self.exts.get(("comp", "*"))
        he = self.exts.get(("compelt", "*"))
        if he is not None and not g.ifs:
            r = he(self, it, e)
            if r is not MISSING: return r
        if g.ifs:
            if h is not None: return h(self, it, e)
        fr = self.frames[-1]; loc = dict(fr.locals)      # evaluated on demand, with the variables as they are now
        def get(i, ex=e.elt):
            nf = Frame(fr.func, dict(loc), fr.module, fr.closure)
            self.frames.append(nf)
            n = len(self.dec); w = len(self.writes)
            try:
                self.assign(g.target, it.get(i))
                v = self.eval(ex)
            finally: self.frames.pop()
            if len(self.dec) != n: raise Unsupported("branching in symbolic comprehension")
            return v
        if g.ifs:
            cond = lambda i: And(*[self.truth(get(i, c)) for c in g.ifs])
            return FilterSeq(cond, get, it.length)
        return SymSeq(self, get, it.length, "list")

    # -- iteration over concrete collections
    def iter_concrete(self, it):
        if isinstance(it, (tuple, list)): return list(it)
        if isinstance(it, (PyList, PySet)): return list(it.items)
        if isinstance(it, PyDict): return [self.unkey(k) for k in it.d]
        if isinstance(it, str): return list(it)
        if isinstance(it, range): return list(it)
        if isinstance(it, SymRange):
            if isinstance(it.lo, int) and isinstance(it.hi, int) and isinstance(it.step, int):
                r = range(it.lo, it.hi, it.step)
                if len(r) > 4096: raise Unsupported("long concrete range")
                return list(r)
        if isinstance(it, Obj) and "__items__" in it.fields: return self.iter_concrete(it.fields["__items__"])
        if isinstance(it, SymSeq):
            n = z3.simplify(zi(it.length))
            if z3.is_int_value(n) and n.as_long() <= 64: return [it.get(z3.IntVal(k)) for k in range(n.as_long())]
        raise Unsupported("iteration over %r" % (it,))

    # ------------------------------------------------------------ calls
    def e_Call(self, e):
        f = self.eval(e.func)
        if isinstance(f, Builtin) and f.name in ("print",):
            return None
        if isinstance(f, Builtin) and f.name == "super" and not e.args:
            return self.make_super()
        args = self.eval_list(e.args)
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                v = self.eval(k.value)
                if isinstance(v, PyDict):
                    for kk in v.d: kw[kk] = v.d[kk]
                else: raise Unsupported("**kwargs")
            else: kw[k.arg] = self.eval(k.value)
        self.line = e.lineno
        return self.call(f, args, kw)

    def make_super(self):
        fr = self.frames[-1]
        s = fr.locals.get("self")
        c = fr.func.cls
        if c is None or s is None: raise Unsupported("super()")
        return _Super(c, s)

    def call(self, f, args, kw):
        if isinstance(f, BoundM):
            if isinstance(f.func, Builtin): return self.call_method(f.self_, f.func.name[7:], args, kw)
            return self.call(f.func, [f.self_] + list(args), kw)
        if isinstance(f, FuncV): return self.call_func(f, args, kw)
        if isinstance(f, ClassV): return self.construct(f, args, kw)
        if isinstance(f, Builtin): return self.call_builtin(f.name, args, kw)
        if isinstance(f, External):
            h = self.exts.get(("external", f.path))
            if h is None: h = EXTERNAL.get(f.path)
            if h is not None:
                self.ext_calls.add(f.path)
                return h(self, *args, **kw)
            raise Unsupported("external call " + f.path)
        if isinstance(f, Opaque): return Opaque("call")
        if callable(f): return f(self, *args, **kw)
        raise Unsupported("call of %r" % (f,))

    def construct(self, c, args, kw):
        h = self.exts.get(("new", c.name))
        if h is not None: return h(self, c, args, kw)
        bb = c.builtin_base()
        if bb in ("Exception", "ValueError", "BaseException", "RuntimeError"):
            return Obj(self, c, {"args": tuple(args)})
        if bb == "int":
            # int subclass used as a labelled integer (Simple_Machine_State)
            if len(args) == 1: return args[0]
            return 0
        o = Obj(self, c, {})
        if bb in ("tuple", "list"):
            it = args[0] if args else ()
            if bb == "tuple":
                o.fields["__items__"] = it if isinstance(it, (SymSeq,)) and False else (tuple(self.iter_concrete(it)) if not isinstance(it, SymSeq) else self.copy_seq(it))
            else: o.fields["__items__"] = PyList(self, self.iter_concrete(it))
        init = c.lookup("__init__")
        if init is not MISSING:
            self.call_func(init, [o] + list(args), kw)
        elif self.is_dataclass(c):
            self.dataclass_init(c, o, args, kw)
        elif args and bb not in ("tuple", "list"):
            raise PyRaise("TypeError", "constructor takes no arguments")
        return o

    def is_dataclass(self, c):
        return any("dataclass" in ast.unparse(d) for d in c.node.decorator_list)
    def dataclass_init(self, c, o, args, kw):
        names = []
        for s in c.node.body:
            if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name): names.append((s.target.id, s.value))
        args = list(args)
        for nm, dv in names:
            if args: o.fields[nm] = args.pop(0)
            elif nm in kw: o.fields[nm] = kw[nm]
            elif dv is not None: o.fields[nm] = self.eval(dv)
            else: raise PyRaise("TypeError", "missing " + nm)

    def copy_seq(self, s): return SymSeq(self, s.get, s.length, "list", s.mk, s.tag)

    def bind(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        loc = {}
        args = list(args); kw = dict(kw)
        for n in names:
            if args: loc[n] = args.pop(0)
            elif n in kw: loc[n] = kw.pop(n)
        if a.vararg: loc[a.vararg.arg] = tuple(args); args = []
        if args: raise PyRaise("TypeError", "too many args for %s" % f.qualname)
        for x in a.kwonlyargs:
            if x.arg in kw: loc[x.arg] = kw.pop(x.arg)
        # defaults
        dnames = names[len(names) - len(a.defaults):] if a.defaults else []
        for n, d in zip(dnames, a.defaults):
            if n not in loc: loc[n] = self.eval_default(f, d)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in loc and d is not None: loc[x.arg] = self.eval_default(f, d)
        if a.kwarg:
            loc[a.kwarg.arg] = PyDict(self, kw); kw = {}
        if kw: raise PyRaise("TypeError", "unexpected keyword %s" % list(kw))
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in loc: raise PyRaise("TypeError", "missing argument %s of %s" % (n, f.qualname))
        return loc
    def eval_default(self, f, d):
        self.frames.append(Frame(None, {}, f.module, f.closure))
        try: return self.eval(d)
        finally: self.frames.pop()

    def call_func(self, f, args, kw):
        c = self.contracts.get((f.module.name, f.qualname))
        if c is not None and (self.call_depth > 0 or self.post_mode) and not getattr(c, "inline", False):
            loc = self.bind(f, args, kw)
            self.used_contracts.add("%s:%s" % (f.module.name, f.qualname))
            names = [x.arg for x in f.node.args.posonlyargs + f.node.args.args] + \
                    ([f.node.args.vararg.arg] if f.node.args.vararg else []) + [x.arg for x in f.node.args.kwonlyargs]
            return c.apply_call(self, f, [loc[n] for n in names])
        return self.call_body(f, args, kw)

    def call_body(self, f, args, kw):
        loc = self.bind(f, args, kw)
        if self.call_depth > 30: raise Unsupported("call depth (recursion without contract): " + f.qualname)
        if self.call_depth > 0: self.inlined.add("%s:%s" % (f.module.name, f.qualname))
        if isinstance(f.node, ast.Lambda):
            self.frames.append(Frame(f, loc, f.module, f.closure))
            self.call_depth += 1
            try: return self.eval(f.node.body)
            finally: self.frames.pop(); self.call_depth -= 1
        for d in f.decorators:
            if d.split("(")[0] not in ("staticmethod", "classmethod", "property", "total_ordering", "abstractmethod", "functools.cache", "cache", "functools.lru_cache", "lru_cache"):
                raise Unsupported("decorator " + d)
        fr = Frame(f, loc, f.module, f.closure)
        if is_generator(f.node): fr.yields = PyList(self, [])
        self.frames.append(fr)
        self.call_depth += 1
        try:
            self.exec_block(f.node.body)
            r = None
        except ReturnEx as ex:
            r = ex.value
        finally:
            self.frames.pop(); self.call_depth -= 1
        if fr.yields is not None: return fr.yields
        return r

    def e_Yield(self, e):
        v = self.eval(e.value) if e.value is not None else None
        fr = self.frames[-1]
        h = self.ghost.get("on_yield")
        if h is not None: h(self, v)
        else:
            for la in self.loop_active:
                raise Unsupported("yield inside a cut loop")
            fr.yields.items.append(v)
        return None

    # ------------------------------------------------------------ builtins
    def call_builtin(self, n, args, kw):
        h = self.exts.get(("builtin", n))
        if h is not None:
            r = h(self, args, kw)
            if r is not MISSING: return r
        f = getattr(self, "b_" + n, None)
        if f is None: raise Unsupported("builtin " + n)
        return f(*args, **kw)

    def b_len(self, x):
        if isinstance(x, (tuple, str)): return len(x)
        if isinstance(x, (PyList, PySet)): return len(x.items)
        if isinstance(x, PyDict): return len(x.d)
        if isinstance(x, SymSeq): return x.length
        if isinstance(x, (SymMap, SymSet)):
            h = getattr(x, "size", None)
            if h is not None: return h
        if isinstance(x, Obj):
            h = self.ext_hook(x, "len")
            if h is not None: return h(self, x)
            if "__items__" in x.fields: return self.b_len(x.fields["__items__"])
            f = x.cls.lookup("__len__") if isinstance(x.cls, ClassV) else MISSING
            if f is not MISSING: return self.call(BoundM(f, x), [], {})
        raise Unsupported("len of %r" % (x,))
    def b_range(self, a, b=None, c=1):
        if b is None: a, b = 0, a
        if all(isinstance(x, (int, bool)) for x in (a, b, c)): return range(a, b, c)
        return SymRange(a, b, c)
    def minmax(self, args, ismin):
        if len(args) == 1: args = self.iter_concrete(args[0])
        if any(isinstance(x, Opaque) for x in args): return Opaque("minmax")
        r = args[0]
        for x in args[1:]:
            if isinstance(r, (int, float)) and isinstance(x, (int, float)): r = min(r, x) if ismin else max(r, x); continue
            c = self.truth(self.less(x, r) if ismin else self.less(r, x))
            if isinstance(c, bool): r = x if c else r
            elif is_z(x) and is_z(r) or (is_num(x) and is_num(r) and not isinstance(x, float) and not isinstance(r, float)): r = z3.If(c, zi(x), zi(r))
            else: r = x if self.branch(c) else r
        return r
    def b_min(self, *args, **kw):
        if kw: raise Unsupported("min key")
        return self.minmax(list(args), True)
    def b_max(self, *args, **kw):
        if kw: raise Unsupported("max key")
        return self.minmax(list(args), False)
    def b_abs(self, x):
        if isinstance(x, (int, float)): return abs(x)
        if isinstance(x, Obj):
            f = self.class_attr(x.cls, "__abs__")
            if f is not MISSING: return self.call(BoundM(f, x), [], {})
        return z3.If(zi(x) >= 0, zi(x), -zi(x))
    def b_divmod(self, a, b):
        if isinstance(a, Obj) and isinstance(a.cls, ClassV):
            f = a.cls.lookup("__divmod__")
            if f is not MISSING: return self.call(BoundM(f, a), [b], {})
        return (self.binop(ast.FloorDiv(), a, b), self.binop(ast.Mod(), a, b)) if not (is_z(a) or is_z(b)) else self._divmod(a, b)
    def _divmod(self, a, b):
        y = zi(b)
        if self.branch(y == 0): raise PyRaise("ZeroDivisionError")
        return self.floordivmod(zi(a), y)
    def b_sum(self, it, start=0):
        if isinstance(it, SymSeq) or isinstance(it, FilterSeq):
            return self.sym_sum(it, start)
        r = start
        for x in self.iter_concrete(it): r = self.binop(ast.Add(), r, x)
        return r
    def sym_sum(self, it, start):
        """Sum over a symbolic sequence: a fresh function F with F(0)=start and
        F(k+1)=F(k)+term(k), unfolded on demand by the contract's lemma."""
        F = self.func("sum", z3.IntSort(), z3.IntSort())
        if isinstance(it, FilterSeq): term = lambda k: Ite(it.cond(k), it.elt(k), 0)
        else: term = lambda k: it.get(k)
        self.assume(F(0) == zi(start))
        rec = {"F": F, "n": zi(it.length), "unfold": lambda k: F(k + 1) == F(k) + zi(term(k))}
        self.ghost.setdefault("sums", []).append(rec)
        return F(zi(it.length))

    def induct(self, label, n, P, unfold=None):
        """Prove P(k) for 0<=k<=n by induction, then assume P(n) (and return
        the quantified fact)."""
        self.prove(label + " (base)", P(z3.IntVal(0)))
        k = self.int("ik")
        mark = len(self.pc)
        if not self.replaying():
            self.solver.push()
            saved = list(self.pc)
            self._add(And(k >= 0, k < zi(n), zb(P(k))))
            if unfold: self.assume(unfold(k))
            self.prove(label + " (step)", P(k + 1))
            self.pc = saved
            self.solver.pop()
        else:
            if unfold: unfold(k)
            P(k); P(k + 1)
        self.assume(Implies(zi(n) >= 0, P(zi(n))))

    def b_any(self, it):
        for x in self.iter_concrete(it):
            if self.test(x): return True
        return False
    def b_all(self, it):
        for x in self.iter_concrete(it):
            if not self.test(x): return False
        return True
    def b_isinstance(self, x, c):
        if isinstance(c, tuple): return Or(*[self.b_isinstance(x, y) for y in c])
        if isinstance(c, Builtin):
            n = c.name
            if n == "int": return isinstance(x, (int,)) or is_zint(x) or is_zbool(x)
            if n == "float": return isinstance(x, float)
            if n == "bool": return isinstance(x, bool) or is_zbool(x)
            if n == "str": return isinstance(x, str)
            if n == "tuple": return isinstance(x, tuple)
            if n == "list": return isinstance(x, (PyList, SymSeq)) and x.kind == "list"
            if n == "dict": return isinstance(x, (PyDict, SymMap))
        if isinstance(c, ClassV):
            h = self.exts.get(("isinstance", c.name))
            if h is not None:
                r = h(self, x)
                if r is not MISSING: return r
            if isinstance(x, Obj): return isinstance(x.cls, ClassV) and c.name in [k.name for k in x.cls.mro()]
            if is_z(x) and not (is_zint(x) or is_zbool(x)): raise Unsupported("isinstance on uninterpreted value")
            if is_num(x) and c.builtin_base() == "int": return True
            return False
        if isinstance(c, External):
            h = self.exts.get(("isinstance", c.path.split(".")[-1]))
            if h is not None: return h(self, x)
            if isinstance(x, (Obj, PyList, SymSeq, tuple, str, int, float)) or is_zint(x) or x is None: return isinstance(x, Obj) and getattr(x.cls, "path", None) == c.path
        raise Unsupported("isinstance %r" % (c,))
    def b_type(self, x):
        if isinstance(x, Obj): return x.cls
        if isinstance(x, bool) or is_zbool(x): return Builtin("bool")
        if isinstance(x, int) or is_zint(x): return Builtin("int")
        if isinstance(x, float): return Builtin("float")
        if isinstance(x, str): return Builtin("str")
        if isinstance(x, tuple): return Builtin("tuple")
        if isinstance(x, (PyList, SymSeq)): return Builtin("list")
        return Opaque("type")
    def b_int(self, x=0):
        if isinstance(x, (int, bool)): return int(x)
        if isinstance(x, str):
            try: return int(x)
            except ValueError: raise PyRaise("ValueError")
        if is_zint(x): return x
        if is_zbool(x): return zi(x)
        raise Unsupported("int(%r)" % (x,))
    def b_bool(self, x=False): return self.truth(x)
    def b_str(self, x=""):
        if isinstance(x, (str, int)) and not isinstance(x, bool): return str(x)
        return Opaque("str")
    def b_repr(self, x): return Opaque("repr")
    def b_bytearray(self, n=0):
        if is_zint(n):
            if not self.branch(n >= 0): raise PyRaise("ValueError")
            return SymSeq(self, lambda i: z3.IntVal(0), n, "bytes", mk=lambda E, nm: (lambda f: (lambda i: f(i)))(E.func(nm, z3.IntSort(), z3.IntSort())))
        raise Unsupported("bytearray")
    def b_bytes(self, it=()):
        if isinstance(it, SymSeq): return SymSeq(self, it.get, it.length, "bytes", it.mk, it.tag)
        raise Unsupported("bytes")
    def b_list(self, it=()):
        if isinstance(it, SymRange) and not all(isinstance(x, int) for x in (it.lo, it.hi, it.step)):
            src = IterSource(self, it); r = SymSeq(self, src.at, src.n, "list"); r.rng = (it.lo, it.step); return r
        if isinstance(it, SymSeq): return self.copy_seq(it)
        if isinstance(it, Obj):
            h = self.ext_hook(it, "list")
            if h is not None: return h(self, it)
            if "__items__" in it.fields: return self.b_list(it.fields["__items__"])
        return PyList(self, self.iter_concrete(it))
    def b_tuple(self, it=()):
        if isinstance(it, SymSeq): return self.copy_seq(it)
        return tuple(self.iter_concrete(it))
    def b_set(self, it=()):
        return PySet(self, self.dedup(self.iter_concrete(it)))
    def b_frozenset(self, it=()): return self.b_set(it)
    def b_dict(self, it=None, **kw):
        d = PyDict(self)
        if isinstance(it, PyDict): d.d = dict(it.d)
        elif it is not None:
            for k, v in [self.iter_concrete(x) for x in self.iter_concrete(it)]: d.d[self.mkkey(k)] = v
        d.d.update(kw)
        return d
    def b_enumerate(self, it, start=0):
        if isinstance(it, SymRange) and not all(isinstance(x, int) for x in (it.lo, it.hi, it.step)):
            src = IterSource(self, it); it = SymSeq(self, src.at, src.n)
        if isinstance(it, Obj) and self.ext_hook(it, "iter") is not None:
            n, at = self.ext_hook(it, "iter")(self, it); it = SymSeq(self, at, n)
        if isinstance(it, SymSeq):
            return SymSeq(self, lambda i: (i + start if start else i, it.get(i)), it.length)
        return PyList(self, [(i + start, x) for i, x in enumerate(self.iter_concrete(it))])
    def b_zip(self, *its):
        its = [SymSeq(self, *reversed(self.ext_hook(x, "iter")(self, x))) if isinstance(x, Obj) and self.ext_hook(x, "iter") is not None else x for x in its]
        if any(isinstance(x, SymSeq) for x in its):
            for a, b in zip(its, its[1:]):
                la = a.length if isinstance(a, SymSeq) else len(a.items)
                lb = b.length if isinstance(b, SymSeq) else len(b.items)
                if not self.branch(zb(zi(la) == zi(lb))): raise Unsupported("zip of unequal lengths")
            gs = [self.getter(x) for x in its]
            return SymSeq(self, lambda i: tuple(g(i) for g in gs), its[0].length if isinstance(its[0], SymSeq) else len(its[0].items))
        return PyList(self, list(zip(*[self.iter_concrete(x) for x in its])))
    def b_reversed(self, it):
        return PyList(self, list(reversed(self.iter_concrete(it))))
    def b_sorted(self, it, **kw):
        xs = self.iter_concrete(it)
        if kw or not all(isinstance(x, (int, str)) for x in xs): raise Unsupported("sorted")
        return PyList(self, sorted(xs))
    def b_map(self, f, it):
        if isinstance(it, SymSeq):
            def get(i):
                n = len(self.dec); v = self.call(f, [it.get(i)], {})
                if len(self.dec) != n: raise Unsupported("branching in symbolic map")
                return v
            return SymSeq(self, get, it.length, "list")
        return PyList(self, [self.call(f, [x], {}) for x in self.iter_concrete(it)])
    def b_pow(self, a, b, m=None):
        if m is None: return self.binop(ast.Pow(), a, b)
        if all(isinstance(x, int) for x in (a, b, m)):
            try: return pow(a, b, m)
            except ValueError: raise PyRaise("ValueError")
        h = self.exts.get(("int", "pow"))
        if h: return self.binop(ast.Mod(), h(self, zi(a), zi(b)), m)
        raise Unsupported("pow")
    def b_hash(self, x): return Opaque("hash")
    def b_id(self, x): return Opaque("id")
    def b_iter(self, x): return x
    def b_getattr(self, o, n, *d):
        try: return self.getattr(o, n)
        except PyRaise as ex:
            if ex.kind == "AttributeError" and d: return d[0]
            raise
    def b_hasattr(self, o, n):
        try: self.getattr(o, n); return True
        except PyRaise as ex:
            if ex.kind == "AttributeError": return False
            raise
    def b_round(self, *a): raise Unsupported("round")
    def b_hex(self, x):
        if isinstance(x, int): return hex(x)
        raise Unsupported("hex")
    def b_ord(self, x): return ord(x)
    def b_chr(self, x): return chr(x)
    def b_Exception(self, *a): return Opaque("exc:Exception")
    def b_ValueError(self, *a): return Opaque("exc:ValueError")
    def b_NotImplementedError(self, *a): return Opaque("exc:NotImplementedError")
    def b_TypeError(self, *a): return Opaque("exc:TypeError")
    def b_IndexError(self, *a): return Opaque("exc:IndexError")
    def b_RuntimeError(self, *a): return Opaque("exc:RuntimeError")
    def b_KeyError(self, *a): return Opaque("exc:KeyError")

    # ------------------------------------------------------------ methods of builtin containers
    def call_method(self, o, n, args, kw):
        k = {PyList: "list", SymSeq: "seq", PyDict: "dict", PySet: "set", str: "str", tuple: "tuple", SymMap: "map", SymSet: "sset"}.get(type(o))
        if k is None: 
            h = self.exts.get(("method", n))
            if h is not None: return h(self, o, *args, **kw)
            if n in self.INT_DUNDER and is_num(o): return self.INT_DUNDER[n](self, o, *args)
            raise Unsupported("method %s of %r" % (n, o))
        f = getattr(self, "m_%s_%s" % (k, n), None)
        if f is None: raise Unsupported("method %s.%s" % (k, n))
        return f(o, *args, **kw)
    INT_DUNDER = {"__neg__": lambda self, o: -zi(o) if is_z(o) else -o, "__add__": lambda self, o, x: self.binop(ast.Add(), o, x), "__sub__": lambda self, o, x: self.binop(ast.Sub(), o, x), "__mul__": lambda self, o, x: self.binop(ast.Mult(), o, x)}
    def m_list_append(self, o, x): self.note_write("list", o, "*"); o.items.append(x)
    def m_list_appendleft(self, o, x): self.note_write("list", o, "*"); o.items.insert(0, x)
    def m_list_extend(self, o, it):
        if isinstance(it, SymSeq): raise Unsupported("extend concrete list by symbolic sequence")
        xs = self.iter_concrete(it); self.note_write("list", o, "*"); o.items.extend(xs)
    def m_list_pop(self, o, i=-1):
        if not o.items: raise PyRaise("IndexError")
        if not isinstance(i, int): raise Unsupported("pop symbolic")
        self.note_write("list", o, "*"); return o.items.pop(self.index_norm(i, len(o.items)))
    def m_list_popleft(self, o):
        if not o.items: raise PyRaise("IndexError")
        self.note_write("list", o, "*"); return o.items.pop(0)
    def m_list_insert(self, o, i, x):
        if not isinstance(i, int): raise Unsupported("insert symbolic")
        self.note_write("list", o, "*"); o.items.insert(i, x)
    def m_list_reverse(self, o): self.note_write("list", o, "*"); o.items.reverse()
    def m_list_copy(self, o): return PyList(self, o.items, o.kind)
    def m_list_clear(self, o): self.note_write("list", o, "*"); o.items.clear()
    def m_list_index(self, o, x):
        for i, y in enumerate(o.items):
            if self.branch(self.truth_eq(x, y)): return i
        raise PyRaise("ValueError")
    def m_list_count(self, o, x):
        r = 0
        for y in o.items:
            c = self.truth_eq(x, y)
            r = (r + int(c)) if isinstance(c, bool) else r + z3.If(c, 1, 0)
        return r
    def m_list_sort(self, o, **kw):
        if kw or not all(isinstance(x, (int, str)) for x in o.items): raise Unsupported("sort")
        self.note_write("list", o, "*"); o.items.sort()
    def m_list_extendleft(self, o, it):
        if isinstance(it, SymSeq): raise Unsupported("extendleft concrete")
        xs = self.iter_concrete(it); self.note_write("list", o, "*")
        for x in xs: o.items.insert(0, x)
    def m_tuple_index(self, o, x):
        for i, y in enumerate(o):
            if self.branch(self.truth_eq(x, y)): return i
        raise PyRaise("ValueError")
    def m_seq_index(self, o, x):
        h = self.exts.get(("seq", "index"))
        if h is not None: return h(self, o, x)
        raise Unsupported("index in a symbolic list")
    def m_seq_append(self, o, x):
        g, n = o.get, zi(o.length)
        self.seq_set(o, get=lambda i: Ite(i == n, x, g(i)), length=n + 1)
    def m_seq_appendleft(self, o, x):
        g, n = o.get, zi(o.length)
        self.seq_set(o, get=lambda i: Ite(i == 0, x, g(i - 1)), length=n + 1)
    def m_seq_extend(self, o, it):
        g, n = o.get, zi(o.length)
        h = self.getter(it)
        m = it.length if isinstance(it, SymSeq) else len(it.items) if isinstance(it, PyList) else len(it)
        if h is None: return
        self.seq_set(o, get=lambda i: Ite(i < n, g(i), h(i - n)), length=n + m)
    def m_seq_extendleft(self, o, it):
        g, n = o.get, zi(o.length)
        h = self.getter(it)
        m = it.length if isinstance(it, SymSeq) else len(it.items) if isinstance(it, PyList) else len(it)
        if h is None: return
        self.seq_set(o, get=lambda i: Ite(i < m, h(m - 1 - i), g(i - m)), length=n + m)
    def m_seq_pop(self, o, i=-1):
        n = zi(o.length)
        if self.branch(n == 0): raise PyRaise("IndexError")
        g = o.get
        if isinstance(i, int) and i == -1:
            self.seq_set(o, length=n - 1); return g(n - 1)
        j = zi(self.index_norm(i, o.length))
        self.seq_set(o, get=lambda t: Ite(t < j, g(t), g(t + 1)), length=n - 1)
        return g(j)
    def m_seq_popleft(self, o):
        n = zi(o.length)
        if self.branch(n == 0): raise PyRaise("IndexError")
        g = o.get
        self.seq_set(o, get=lambda t: g(t + 1), length=n - 1)
        return g(z3.IntVal(0))
    def m_seq_copy(self, o): return SymSeq(self, o.get, o.length, o.kind, o.mk, o.tag)
    def m_seq_reverse(self, o):
        g, n = o.get, zi(o.length)
        self.seq_set(o, get=lambda i: g(n - 1 - i))
    def m_seq_clear(self, o):
        self.seq_set(o, length=z3.IntVal(0))
    def m_seq_insert(self, o, k, x):
        g, n = o.get, zi(o.length)
        if isinstance(k, int) and k == 0:
            self.seq_set(o, get=lambda i: Ite(i == 0, x, g(i - 1)), length=n + 1)
        else: raise Unsupported("insert")
    def m_dict_items(self, o): return PyList(self, [(self.unkey(k), v) for k, v in o.d.items()])
    def m_dict_keys(self, o): return PyList(self, [self.unkey(k) for k in o.d])
    def m_dict_values(self, o): return PyList(self, list(o.d.values()))
    def m_dict_get(self, o, k, d=None):
        ok, v = self.dict_get(o, k)
        return v if ok else d
    def m_dict_clear(self, o): self.note_write("dict", o, "*"); o.d.clear()
    def m_dict_copy(self, o): return PyDict(self, o.d)
    def m_dict_setdefault(self, o, k, d=None):
        ok, v = self.dict_get(o, k)
        if ok: return v
        self.dict_set(o, k, d); return d
    def m_dict_update(self, o, other):
        for k in other.d: self.dict_set(o, self.unkey(k), other.d[k])
    def sym_map(self, name, ks=None, val=None, vs=None):
        """Arbitrary finite dictionary with an arbitrary iteration order."""
        ks = ks or z3.IntSort(); vs = vs or z3.IntSort()
        n = self.int(name + "_n"); key = self.func(name + "_key", z3.IntSort(), ks); idx = self.func(name + "_idx", ks, z3.IntSort()); v = self.func(name + "_val", ks, vs)
        self.assume(n >= 0)
        self.assume(Forall([z3.IntSort()], lambda k: Implies(And(k >= 0, k < n), idx(key(k)) == k), patterns=lambda k: [key(k)]))
        has = lambda x: And(idx(x) >= 0, idx(x) < n, key(idx(x)) == x) if is_z(x) and x.sort() == ks else (And(idx(zi(x)) >= 0, idx(zi(x)) < n, key(idx(zi(x))) == zi(x)) if ks == z3.IntSort() and x is not None else False)
        m = SymMap(self, has, (val or (lambda x: v(x if is_z(x) else zi(x)))))
        m.order = (n, lambda k: key(k)); m.size = n; m.nonempty = lambda: n > 0; m.idx = idx
        return m
    def map_order(self, o):
        if o.order is None: raise Unsupported("iteration over map")
        return o.order
    def m_map_items(self, o): n, k = self.map_order(o); g = o.get; return SymSeq(self, lambda i: (k(i), g(k(i))), n)
    def m_map_keys(self, o): n, k = self.map_order(o); return SymSeq(self, k, n)
    def m_map_values(self, o): n, k = self.map_order(o); g = o.get; return SymSeq(self, lambda i: g(k(i)), n)
    def m_map_get(self, o, k, d=None):
        return o.get(k) if self.branch(zb(o.has(k))) else d
    def m_set_add(self, o, x):
        for y in o.items:
            if self.branch(self.truth_eq(x, y)): return
        self.note_write("set", o, "*"); o.items.append(x)
    def m_set_update(self, o, it):
        for x in self.iter_concrete(it): self.m_set_add(o, x)
    def m_set_copy(self, o): return PySet(self, o.items)
    def m_sset_add(self, o, x):
        h = o.has
        self.note_write("set", o, "*")
        o.has = lambda y, h=h, x=x: Or(self.truth_eq(y, x), h(y))
    def m_str_join(self, o, it):
        h = self.exts.get(("str", "join"))
        if h is not None: return h(self, o, it)
        xs = self.iter_concrete(it)
        if all(isinstance(x, str) for x in xs): return o.join(xs)
        return Opaque("join")
    def _strm(name):
        def f(self, o, *a, **k):
            h = self.exts.get(("str", name))
            if h is not None:
                r = h(self, o, *a)
                if r is not MISSING: return r
            if all(isinstance(x, (str, int, type(None))) for x in a):
                r = getattr(o, name)(*a)
                if isinstance(r, list): return PyList(self, r)
                return r
            return Opaque("str." + name)
        return f
    for _n in ("split", "strip", "startswith", "endswith", "lower", "upper", "replace", "index", "find", "count", "isdigit", "rstrip", "lstrip", "splitlines"):
        locals()["m_str_" + _n] = _strm(_n)
    def m_str_format(self, o, *a, **k): return Opaque("format")

    # ------------------------------------------------------------ statements
    def exec_block(self, body):
        for s in body: self.exec(s)

    def exec(self, s):
        self.line = s.lineno
        self.covered.add((self.frames[-1].module.name, s.lineno))
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None: raise Unsupported("statement %s (line %d)" % (type(s).__name__, s.lineno))
        return m(s)

    def s_Pass(self, s): pass
    def s_Global(self, s): pass
    def s_Nonlocal(self, s): pass
    def s_Import(self, s):
        for a in s.names:
            mm = self.P.module(a.name)
            self.frames[-1].locals[a.asname or a.name.split(".")[0]] = mm if mm is not None else External(a.name)
    def s_ImportFrom(self, s): raise Unsupported("local import")
    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant): return
        self.eval(s.value)
    def s_Assign(self, s):
        v = self.eval(s.value)
        for t in s.targets: self.assign(t, v)
    def s_AnnAssign(self, s):
        if s.value is not None: self.assign(s.target, self.eval(s.value))
    def assign(self, t, v):
        if isinstance(t, ast.Name):
            fr = self.frames[-1]
            if fr.func is not None and isinstance(fr.func.node, ast.FunctionDef) and self.declared_global(fr, t.id):
                raise Unsupported("assignment to global/nonlocal " + t.id)
            fr.locals[t.id] = v
        elif isinstance(t, ast.Attribute): self.setattr(self.eval(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript): self.setitem(self.eval(t.value), self.eval_slice(t.slice), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, SymSeq):
                if not self.branch(zb(zi(v.length) == len(t.elts))): raise PyRaise("ValueError", "unpack")
                xs = [v.get(z3.IntVal(i)) for i in range(len(t.elts))]
            elif is_z(v): raise Unsupported("unpacking scalar")
            else: xs = self.iter_concrete(v)
            if any(isinstance(e, ast.Starred) for e in t.elts): raise Unsupported("star unpack")
            if len(xs) != len(t.elts): raise PyRaise("ValueError", "unpack")
            for e, x in zip(t.elts, xs): self.assign(e, x)
        else: raise Unsupported("assignment target")
    def s_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id)
            self.assign(t, self.inplace(s.op, cur, self.eval(s.value)))
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.inplace(s.op, cur, self.eval(s.value)))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value); k = self.eval_slice(t.slice)
            cur = self.getitem(o, k)
            self.setitem(o, k, self.inplace(s.op, cur, self.eval(s.value)))
        else: raise Unsupported("augassign")
    def inplace(self, op, cur, v):
        if isinstance(op, ast.Add) and isinstance(cur, Obj):
            h = self.ext_hook(cur, "iadd")
            if h is not None: return h(self, cur, v)
        if isinstance(op, ast.Add) and isinstance(cur, PyList):
            self.m_list_extend(cur, v); return cur
        if isinstance(op, ast.Add) and isinstance(cur, SymSeq):
            self.m_seq_extend(cur, v); return cur
        return self.binop(op, cur, v)
    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name): self.frames[-1].locals[t.id] = MISSING
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value); k = self.eval_slice(t.slice)
                if isinstance(o, PyDict):
                    for kk in list(o.d):
                        if self.branch(self.truth_eq(self.unkey(kk), k)):
                            self.note_write("dict", o, "*"); del o.d[kk]; return
                    raise PyRaise("KeyError")
                if isinstance(o, Obj) and self.ext_hook(o, "delitem") is not None: self.ext_hook(o, "delitem")(self, o, k); continue
                if isinstance(o, PyList) and isinstance(k, int): self.m_list_pop(o, k)
                elif isinstance(o, SymSeq) and isinstance(k, slice):
                    if k.start is None and k.stop is None and k.step is None: self.m_seq_clear(o)
                    else: raise Unsupported("del slice")
                elif isinstance(o, SymSeq) : self.m_seq_pop(o, k)
                else: raise Unsupported("del")
            else: raise Unsupported("del")
    def s_If(self, s):
        if self.test(self.eval(s.test)): self.exec_block(s.body)
        else: self.exec_block(s.orelse)
    def s_Return(self, s):
        raise ReturnEx(self.eval(s.value) if s.value is not None else None)
    def s_Break(self, s): raise BreakEx()
    def s_Continue(self, s): raise ContinueEx()
    def s_Assert(self, s):
        if not self.test(self.eval(s.test)): raise PyRaise("AssertionError", "line %d" % s.lineno)
    def s_Raise(self, s):
        if s.exc is None: raise PyRaise("Exception", "re-raise")
        e = s.exc
        if isinstance(e, ast.Call): nm = ast.unparse(e.func)
        else: nm = ast.unparse(e)
        v = None
        try: v = self.eval(e)
        except Unsupported: pass
        raise PyRaise(nm.split(".")[-1], "line %d" % s.lineno, v)
    def s_FunctionDef(self, s):
        fr = self.frames[-1]
        fr.locals[s.name] = FuncV(fr.module, s, (fr.func.qualname if fr.func else "") + ".<locals>." + s.name, closure=fr)
    def s_Try(self, s):
        def fin():
            self.exec_block(s.finalbody)
        try:
            try:
                self.exec_block(s.body)
            except PyRaise as ex:
                for h in s.handlers:
                    if h.type is None or self.exc_match(h.type, ex):
                        if h.name: self.frames[-1].locals[h.name] = ex.value if ex.value is not None else Opaque("exc")
                        self.exec_block(h.body)
                        break
                else: raise
            else:
                self.exec_block(s.orelse)
        except (ReturnEx, BreakEx, ContinueEx, PyRaise):
            fin(); raise
        else: fin()
    EXC_PARENTS = {"KeyError": {"LookupError"}, "IndexError": {"LookupError"}, "ZeroDivisionError": {"ArithmeticError"},
                   "UnboundLocalError": {"NameError"}, "NotImplementedError": {"RuntimeError"}}
    def exc_match(self, t, ex):
        names = [ast.unparse(x).split(".")[-1] for x in (t.elts if isinstance(t, ast.Tuple) else [t])]
        chain = {ex.kind, "Exception", "BaseException"} | self.EXC_PARENTS.get(ex.kind, set())
        if isinstance(ex.value, Obj) and isinstance(ex.value.cls, ClassV): chain |= {c.name for c in ex.value.cls.mro()}
        return any(n in chain for n in names)
    def s_With(self, s):
        for it in s.items:
            v = self.eval(it.context_expr)
            if it.optional_vars is not None: self.assign(it.optional_vars, v)
            if not (isinstance(v, Opaque) or (isinstance(v, Obj) and v.meta.get("ctx"))):
                raise Unsupported("with " + ast.unparse(it.context_expr))
        self.exec_block(s.body)

    # ------------------------------------------------------------ loops
    def s_For(self, s):
        it = self.eval(s.iter)
        spec = self.loop_specs_has(s) if any(l.get("force") for l in self.loop_specs) else None
        if spec is not None and spec.get("force"): return self.cut_for(s, it)
        try: xs = self.iter_concrete(it)
        except Unsupported:
            return self.cut_for(s, it)
        try:
            for x in xs:
                self.assign(s.target, x)
                try: self.exec_block(s.body)
                except ContinueEx: pass
        except BreakEx: return
        self.exec_block(s.orelse)

    def s_While(self, s):
        # A loop without a spec is unrolled as long as its guard is concrete.
        if self.loop_specs_has(s) is None:
            n = 0
            try:
                while True:
                    c = self.truth(self.eval(s.test))
                    if not isinstance(c, bool):
                        sc = z3.simplify(c)
                        if z3.is_true(sc): c = True
                        elif z3.is_false(sc): c = False
                        else:
                            if n > 0: raise Unsupported("loop guard became symbolic")
                            return self.cut_while(s)
                    if not c: break
                    n += 1
                    if n > 3000: raise Unsupported("long concrete loop")
                    if isinstance(s.test, ast.Constant) and n > 40: raise Unsupported("while True without a loop contract (line %d)" % s.lineno)
                    try: self.exec_block(s.body)
                    except ContinueEx: pass
            except BreakEx: return
            self.exec_block(s.orelse)
            return
        return self.cut_while(s)

    def loop_key(self, s):
        return (self.frames[-1].module.name, s.lineno, s.col_offset, tuple(self.dec))

    def loop_specs_has(self, s):
        """Loop contracts bind by order of first encounter of symbolic loops."""
        k = (self.frames[-1].module.name, s.lineno, s.col_offset)
        for spec in self.loop_specs:
            if spec.get("bound") == k: return spec
        for spec in self.loop_specs:
            if spec.get("bound") is None and spec["match"](self, s, self.frames[-1]):
                spec["bound"] = k
                return spec
        return None

    def havoc_value(self, v, name):
        if isinstance(v, bool) or is_zbool(v): return self.bool(name)
        if isinstance(v, int) or is_zint(v): return self.int(name)
        if is_z(v): return self.fresh(v.sort(), name)
        if isinstance(v, Opaque): return v
        if isinstance(v, SymSeq):
            if v.mk is None: raise Unsupported("cannot havoc sequence %s" % name)
            n = self.int(name + "_len"); self.assume(n >= 0)
            return SymSeq(self, v.mk(self, name), n, v.kind, v.mk, v.tag)
        raise Unsupported("cannot havoc %s = %r" % (name, v))

    def havoc_inplace(self, o, field, name):
        """Forget what a heap location holds."""
        if isinstance(o, Obj):
            h = self.ext_hook(o, "havoc")
            if h is not None and h(self, o, field): return
            if field not in o.fields: return
            o.fields[field] = self.havoc_value(o.fields[field], name)
        elif isinstance(o, SymSeq):
            if o.mk is None: raise Unsupported("cannot havoc sequence %s" % name)
            n = self.int(name + "_len"); self.assume(n >= 0)
            o.get = o.mk(self, name); o.length = n
        elif isinstance(o, (SymMap, SymSet)):
            if o.mk is None: raise Unsupported("cannot havoc map")
            o.mk(self, o, name)
        else: raise Unsupported("cannot havoc %r" % (o,))

    def cut_common(self, s, spec, assigned):
        """Havoc the loop frame.  Returns the record of the active loop."""
        key = self.loop_key(s)
        fr = self.frames[-1]
        la = {"key": key, "havoced": set(), "oid_limit": self._oid, "node": s}
        for n in sorted(assigned):
            if n in fr.locals and fr.locals[n] is not MISSING:
                hv = spec.get("havoc_local")
                v = hv(self, fr, n) if hv else MISSING
                fr.locals[n] = v if v is not MISSING else self.havoc_value(fr.locals[n], n)
            else:
                bu = spec.get("bind_unbound")
                fr.locals[n] = bu(self, fr, n, getattr(self, "_cutk", None)) if bu else MISSING
        todo = sorted(self.loop_frames.get(key, ()), key=str)
        if spec.get("frame"): todo = [x for x in ((o.oid, f) for o, f in spec["frame"](self, fr))] + [x for x in todo]
        for (oid, field) in todo:
            if (oid, field) in la["havoced"]: continue
            o = self._oid_objs[oid]
            la["havoced"].add((oid, field))
            h = spec.get("havoc_heap")
            if h is not None and h(self, fr, o, field): continue
            self.havoc_inplace(o, field, "h%d_%s" % (oid, field))
        return la

    def inv_conditions(self, spec, fr, extra=None):
        env = Env(self, fr, extra or {})
        r = list(spec["inv"](self, env))
        if spec.get("candidates"):
            for lab, c in spec["candidates"](self, env):
                if (spec["name"], lab) not in self.dropped: r.append(("?" + lab, c))
        return r

    def prove_inv(self, spec, phase, lab, c):
        """Invariant obligation; a failing candidate is dropped instead."""
        if lab.startswith("?"):
            if self.replaying():
                if isinstance(c, Forall): c.skolem(self)
                return
            cc = c.skolem(self) if isinstance(c, Forall) else c
            r, m = self._check([z3.Not(zb(cc))])
            if r != "unsat":
                self.dropped.add((spec["name"], lab[1:]))
                raise Restart()
            self.obligations.append(Obligation(func=self.fname, label="loop%s %s: %s" % (spec["name"], phase, lab[1:]), path=len(self.dec), status="proved", secs=0, backend=self._backend, line=self.line))
            return
        self.prove("loop%s %s: %s" % (spec["name"], phase, lab), c, "inv")

    def cut_while(self, s):
        spec = self.loop_specs_has(s)
        if spec is None: raise Unsupported("loop at line %d has no loop contract" % s.lineno)
        fr = self.frames[-1]
        if spec.get("pre"): spec["pre"](self, Env(self, fr, {}))
        for lab, c in self.inv_conditions(spec, fr): self.prove_inv(spec, "entry", lab, c)
        assigned = assigned_names_body(s.body + [s.test])
        la = self.cut_common(s, spec, assigned)
        for lab, c in self.inv_conditions(spec, fr): self.assume(c)
        if spec.get("head"): spec["head"](self, Env(self, fr, {}))
        t = self.test(self.eval(s.test))
        if t:
            # One arbitrary iteration; a break leaves the loop with its state.
            self.loop_active.append(la)
            old = spec["snapshot"](self, Env(self, fr, {})) if spec.get("snapshot") else None
            try:
                try: self.exec_block(s.body)
                except ContinueEx: pass
                if spec.get("after"): spec["after"](self, Env(self, fr, {}), old)
                for lab, c in self.inv_conditions(spec, fr): self.prove_inv(spec, "step", lab, c)
                if spec.get("variant"):
                    for lab, c in spec["variant"](self, Env(self, fr, {}), old): self.prove("loop%s variant: %s" % (spec["name"], lab), c, "inv")
                raise PathEnd("loop back edge")
            except BreakEx:
                pass
            finally:
                self.loop_active.remove(la)
            if spec.get("on_break"): spec["on_break"](self, Env(self, fr, {}))
            return
        if spec.get("exit"): spec["exit"](self, Env(self, fr, {}))
        self.exec_block(s.orelse)

    def cut_for(self, s, it):
        spec = self.loop_specs_has(s)
        if spec is None: raise Unsupported("loop at line %d has no loop contract" % s.lineno)
        fr = self.frames[-1]
        src = IterSource(self, it)
        k0 = z3.IntVal(0)
        if spec.get("pre"): spec["pre"](self, Env(self, fr, {"k": k0, "n": src.n, "it": it, "src": src}))
        for lab, c in self.inv_conditions(spec, fr, {"k": k0, "n": src.n, "it": it, "src": src}):
            self.prove_inv(spec, "entry", lab, c)
        assigned = assigned_names_body(s.body) | assigned_names_target(s.target)
        k = self.int("k")
        self.assume(And(k >= 0, k <= zi(src.n)))
        self._cutk = k
        la = self.cut_common(s, spec, assigned)
        x = {"k": k, "n": src.n, "it": it, "src": src}
        for lab, c in self.inv_conditions(spec, fr, x): self.assume(c)
        if spec.get("head"): spec["head"](self, Env(self, fr, x))
        if self.branch(zb(k < zi(src.n))):
            self.loop_active.append(la)
            old = spec["snapshot"](self, Env(self, fr, x)) if spec.get("snapshot") else None
            try:
                self.assign(s.target, spec["item"](self, k, src) if spec.get("item") else src.at(k))
                if spec.get("body_start"): spec["body_start"](self, Env(self, fr, x))
                try: self.exec_block(s.body)
                except ContinueEx: pass
                x1 = dict(x); x1["k"] = k + 1
                if spec.get("after"): spec["after"](self, Env(self, fr, x1), old)
                for lab, c in self.inv_conditions(spec, fr, x1):
                    self.prove_inv(spec, "step", lab, c)
                raise PathEnd("loop back edge")
            except BreakEx: pass
            finally: self.loop_active.remove(la)
            if spec.get("on_break"): spec["on_break"](self, Env(self, fr, x))
            return
        if spec.get("exit"): spec["exit"](self, Env(self, fr, x))
        self.exec_block(s.orelse)


class _ZKey:
    def __init__(self, e): self.e = e
    def __eq__(self, o): return isinstance(o, _ZKey) and (self.e is o.e or (is_z(self.e) and is_z(o.e) and self.e.eq(o.e)))
    def __hash__(self): return hash(self.e.sexpr()) if is_z(self.e) else hash(str(self.e))

class _Super:
    def __init__(self, c, s): self.c, self.s = c, s

_orig_getattr = Engine.getattr
def _ga(self, o, name):
    if isinstance(o, _Super):
        for k in o.c.mro()[1:]:
            if name in k.attrs and isinstance(k.attrs[name], FuncV): return BoundM(k.attrs[name], o.s)
        raise Unsupported("super().%s" % name)
    return _orig_getattr(self, o, name)
Engine.getattr = _ga


class FilterSeq:
    def __init__(self, cond, elt, length): self.cond, self.elt, self.length = cond, elt, length

class SymRange:
    def __init__(self, lo, hi, step): self.lo, self.hi, self.step = lo, hi, step

class IterSource:
    """Uniform view of what a cut `for` iterates over: n items, at(k)."""
    def __init__(self, E, it):
        if isinstance(it, SymRange):
            if not isinstance(it.step, int) or it.step == 0: raise Unsupported("symbolic range step")
            lo, hi, st = zi(it.lo), zi(it.hi), it.step
            if st == 1: n = Ite(hi > lo, hi - lo, 0)
            elif st == -1: n = Ite(lo > hi, lo - hi, 0)
            else:
                n = E.int("rng")
                if st > 0: E.assume([n >= 0, Implies(hi <= lo, n == 0), Implies(hi > lo, And(lo + st * (n - 1) < hi, lo + st * n >= hi))])
                else: raise Unsupported("range step")
            self.n = n; self.at = lambda k: lo + st * k
        elif isinstance(it, SymSeq):
            self.n = it.length; self.at = it.get
        elif isinstance(it, (PyList,)):
            g = E.getter(it); self.n = z3.IntVal(len(it.items)); self.at = g
        elif isinstance(it, Obj) and E.ext_hook(it, "iter") is not None:
            self.n, self.at = E.ext_hook(it, "iter")(E, it)
        elif isinstance(it, Obj) and "__items__" in it.fields:
            o = IterSource(E, it.fields["__items__"]); self.n, self.at = o.n, o.at
        elif isinstance(it, SymMap):
            if it.order is None: raise Unsupported("iteration over map")
            self.n, self.at = it.order
        else: raise Unsupported("iteration over %r" % (it,))


class Env:
    """What a loop contract sees: locals by name plus loop ghosts."""
    def __init__(self, E, fr, extra):
        self.__dict__["E"], self.__dict__["fr"], self.__dict__["extra"] = E, fr, extra
    def __getattr__(self, n):
        if n in self.extra: return self.extra[n]
        ren = self.E.rename or {}
        n = ren.get(n, n)
        if n in self.fr.locals:
            v = self.fr.locals[n]
            if v is MISSING: raise Unbound(n)
            return v
        for f in reversed(self.E.frames):
            if n in f.locals and f.locals[n] is not MISSING: return f.locals[n]
        raise Unbound(n)
    def has(self, n):
        try: getattr(self, n); return True
        except Unbound: return False

class Unbound(Unsupported):
    def __init__(self, n):
        Unsupported.__init__(self, "loop contract cannot bind local %r" % n); self.name = n

Engine.rename = None


def is_generator(node):
    for n in walk_own(node):
        if isinstance(n, (ast.Yield, ast.YieldFrom)): return True
    return False

def walk_own(node):
    """Walk without entering nested functions."""
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)): todo.extend(ast.iter_child_nodes(n))

def assigned_names_target(t):
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}

def assigned_names_body(body):
    out = set()
    for s in body:
        for n in [s] + list(walk_own(s)):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)): out.add(n.id)
    # comprehension targets are local to the comprehension
    return out

_anc = {}
def assigned_names_cached(node):
    k = id(node)
    if k not in _anc:
        if isinstance(node, ast.Lambda): s = set()
        else:
            comp = set()
            for n in walk_own(node):
                if isinstance(n, ast.comprehension): comp |= assigned_names_target(n.target)
            s = assigned_names_body(node.body)
            # names only bound by comprehensions are not function locals
            real = set()
            for st in node.body:
                for n in [st] + list(walk_nocomp(st)):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store): real.add(n.id)
                    if isinstance(n, ast.FunctionDef): real.add(n.name)
            s = real
        _anc[k] = (node, s)
    return _anc[k][1]

def walk_nocomp(node):
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)): continue
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)): todo.extend(ast.iter_child_nodes(n))


BUILTINS = {"len", "range", "min", "max", "abs", "divmod", "sum", "any", "all", "isinstance", "type", "int", "bool", "str", "repr",
            "list", "tuple", "set", "frozenset", "dict", "enumerate", "zip", "reversed", "sorted", "map", "pow", "hash", "id", "print",
            "object", "float", "Exception", "ValueError", "TypeError", "KeyError", "IndexError", "AttributeError", "NotImplementedError",
            "NotImplemented", "AssertionError", "RuntimeError", "super", "iter", "getattr", "hasattr", "round", "open", "hex", "ord", "chr",
            "staticmethod", "classmethod", "property", "StopIteration", "BaseException", "callable", "input", "bytes", "bytearray", "vars", "next", "filter"}

EXTERNAL_CONST = {"string.digits": "0123456789", "string.ascii_uppercase": "ABCDEFGHIJKLMNOPQRSTUVWXYZ",
                  "string.ascii_lowercase": "abcdefghijklmnopqrstuvwxyz"}

def _deque(E, it=()):
    if isinstance(it, SymSeq):
        return SymSeq(E, it.get, it.length, "deque", it.mk, it.tag)
    return PyList(E, E.iter_concrete(it), "deque")
def _noop(E, *a, **k): return None
EXTERNAL = {
    "collections.deque": _deque,
    "time.time": lambda E: Opaque("time"),
    "sys.stdout.flush": _noop,
}
