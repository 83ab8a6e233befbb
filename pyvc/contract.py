"""Function contracts, their verification and their use at call sites."""
import time, traceback, ast
import z3
from .engine import *
from .engine import _deque


class NS:
    def __init__(self_, **k): self_.__dict__.update(k)


class Loop:
    """Contract of one loop.  Bound to the symbolic loops of the function (and
    of helpers inlined into it) in the order in which they are first met."""
    def __init__(self, name, inv, candidates=None, **k):
        self.d = dict(k); self.d["name"] = name; self.d["inv"] = inv
        self.d.setdefault("match", lambda E, s, fr: True)
        self.d["candidates"] = candidates


class Contract:
    module = None         # dotted module name under Code/
    qualname = None
    params = []           # positional parameter names, in order
    assumed = False       # True: trusted (never verified), listed as an assumption
    why = ""              # reason for `assumed`
    max_paths = 4000
    budget_s = 240
    timeout_ms = 20000
    feas_ms = 1500
    exts = {}
    extra_loops = True

    # ---- to be overridden
    def args(self, E): raise NotImplementedError
    def pre(self, E, a): return []
    def old(self, E, a): return NS()
    def post(self, E, old, a, r): return []
    def modifies(self, E, a): return []      # list of (obj, field) / (obj, None)
    def havoc(self, E, a, old):
        for o, f in self.modifies(E, a):
            if f is None:
                if isinstance(o, Obj):
                    for k in list(o.fields): E.note_write("field", o, k); E.havoc_inplace(o, k, k)
                else: E.note_write("seq", o, "*"); E.havoc_inplace(o, "*", "hv")
            else: E.note_write("field", o, f); E.havoc_inplace(o, f, f)
    def result(self, E, a, old): return None
    def raises(self, E, old, a, ex):
        """Conditions under which the raised exception is acceptable."""
        return [("no exception (%s %s)" % (ex.kind, ex.msg), False)]
    def loops(self): return []
    def lemmas(self, E, old, a, r): pass
    def setup(self, E): pass

    # ---- use at a call site
    def apply_call(self, E, f, argv):
        a = NS(**dict(zip(self.params, argv)))
        if len(argv) != len(self.params):
            raise Unsupported("signature of %s changed" % self.qualname)
        self.check_args(E, a)
        for lab, c in self.pre(E, a):
            E.prove("call %s: requires %s" % (self.qualname, lab), c, "pre")
        old = self.old(E, a)
        self.havoc(E, a, old)
        r = self.result(E, a, old)
        for lab, c in self.post(E, old, a, r): E.assume(c)
        return r
    def check_args(self, E, a): pass

    # ---- verification against the real body
    def key(self): return (self.module, self.qualname)

    def verify(self, program, contracts, exts=None, stats=None, cont=None, slice_s=None):
        """cont: continue the exploration another process left unfinished"""
        res = NS(restart=None, leftover=None, key=self.key(), status="?", obligations=[], reason="", secs=0, paths=0, uncovered=[], inlined=[], used=[], line=None)
        t0 = time.time()
        E = None
        try:
            f = program.func(self.module, self.qualname)
            if f is None:
                res.status, res.reason = "unsupported", "function not found"
                return res
            res.line = f.node.lineno
            renames = [cont["rename"] if cont else None]
            tried = 0
            known = set()
            while renames:
                ren = renames.pop(0)
                E = self._engine(program, contracts, exts, stats)
                E.rename = ren
                E.t0 = t0; E.slice_s = slice_s
                if cont:
                    E.stack0 = cont["stack"]; E.bad0 = cont.get("bad", 0); E.deadline = cont["deadline"]; E.pre_sat = True; E.loop_frames = {k: set(v) for k, v in cont["frames"].items()}
                    for l, b in zip(E.loop_specs, cont["bound"]): l["bound"] = b
                try:
                    self._run(E, f)
                    res.status = "ok"
                    if E.restart or E.leftover:
                        st = dict(rename=ren, stack=E.leftover, deadline=E.deadline, frames=E.loop_frames, bad=E.bad0 + sum(o.status != "proved" for o in E.obligations), bound=[l["bound"] for l in E.loop_specs])
                        if E.restart: st["stack"] = [[]]; st["bad"] = 0; st["bound"] = [None] * len(E.loop_specs); res.restart = st
                        else: res.leftover = st
                    break
                except Unbound as u:
                    tried += 1
                    cur = dict(ren or {})
                    if tried > 12 or u.name in cur: raise
                    cands = [n for n in sorted(self._local_names(program, E, f)) if n not in cur.values() and n not in self._contract_names()]
                    new = []
                    for c in cands:
                        d = dict(cur); d[u.name] = c; new.append(d)
                    renames = new + renames
                    if not renames: raise
            bad = [o for o in E.obligations if o.status != "proved"]
            if bad and E.rename is None or not bad: pass
            res.obligations = E.obligations
            if bad: res.status = "failed"
            elif not E.obligations and cont is None and not E.restart: res.status, res.reason = "unsupported", "no obligation generated"
            else: res.status = "proved"
            if not E.pre_sat: res.status, res.reason = "unsupported", "precondition is unsatisfiable (vacuous)"
        except Unsupported as u:
            res.status, res.reason = "unsupported", str(u) + ((" [near line %s]" % E.line) if E is not None and getattr(E, "line", None) else "")
            if E is not None: res.obligations = E.obligations
        except RecursionError:
            res.status, res.reason = "unsupported", "recursion limit in the verifier"
        except z3.Z3Exception as ex:
            res.status, res.reason = "unsupported", "verifier error: %s" % ex
            res.trace = traceback.format_exc()
        except Exception as ex:
            res.status, res.reason = "unsupported", "verifier error: %s: %s" % (type(ex).__name__, ex)
            res.trace = traceback.format_exc()
        res.secs = time.time() - t0
        if E is not None:
            res.paths = E.paths; res.inlined = sorted(E.inlined); res.used = sorted(E.used_contracts)
            res.ext = sorted(E.ext_calls)
            try: res.uncovered = self._uncovered(program, E)
            except Exception: pass
        return res

    def _contract_names(self):
        return set(getattr(self, "names", ()))
    def _local_names(self, program, E, f):
        out = set()
        for fr in ([E.frames[-1]] if E.frames else []): out |= set(fr.locals)
        out |= assigned_names_cached(f.node)
        return out

    def _engine(self, program, contracts, exts, stats):
        cs = dict(contracts)
        E = Engine(program, cs, "%s:%s" % (self.module, self.qualname), stats=stats)
        E.exts = dict(exts or {}); E.exts.update(self.exts)
        E.max_paths = self.max_paths; E.timeout_ms = self.timeout_ms; E.feas_ms = self.feas_ms
        E.deadline = time.time() + self.budget_s
        E.loop_specs = [l.d for l in self.loops()]
        for l in E.loop_specs: l["bound"] = None
        E.pre_sat = None
        self.setup(E)
        return E

    def _run(self, E, f):
        def run():
            a = self.args(E)
            for lab, c in self.pre(E, a): E.assume(c)
            if not E.replaying() and not E.pre_sat:
                s = z3.Solver(); s.set("timeout", 5000); s.add(*E.pc)
                E.pre_sat = s.check() != z3.unsat
            old = self.old(E, a)
            mark = E._oid
            E.writes = []
            argv = [getattr(a, n) for n in self.params]
            exc = None; E.post_mode = False
            try:
                r = self.run_body(E, f, argv)
            except PyRaise as ex:
                exc = ex
            E.post_mode = True
            if exc is not None:
                if exc.kind == "AttributeError": raise Unsupported("representation changed: AttributeError %s" % exc.msg)
                for lab, c in self.raises(E, old, a, exc): E.prove(lab, c)
                return
            allowed = set()
            for o, fl in self.modifies(E, a):
                allowed.add((o.oid, fl))
            for kind, oid, fl in E.writes:
                if kind == "class": 
                    if fl not in E.quiet_attrs: E.prove("frame: class attribute %s.%s not modified" % (oid, fl), False)
                    continue
                if oid <= mark and (oid, fl) not in allowed and (oid, None) not in allowed:
                    E.prove("frame: nothing but the declared locations is modified (wrote %s of %s)" % (fl, self.desc(E, oid)), False)
            self.lemmas(E, old, a, r)
            for lab, c in self.post(E, old, a, r): E.prove("ensures " + lab, c)
        E.explore(run)

    def run_body(self, E, f, argv):
        # positional for ordinary parameters; keyword-only ones by their real names
        A = f.node.args
        npos = len(A.posonlyargs) + len(A.args)
        if A.vararg:
            return E.call_body(f, list(argv[:npos]) + list(argv[npos]), {})
        kw = {x.arg: v for x, v in zip(A.kwonlyargs, argv[npos:])}
        if len(argv) != npos + len(A.kwonlyargs): raise Unsupported("signature of %s changed" % self.qualname)
        return E.call_body(f, list(argv[:npos]), kw)

    def desc(self, E, oid):
        return repr(E._oid_objs.get(oid))

    def _uncovered(self, program, E):
        f = program.func(self.module, self.qualname)
        lines = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.stmt) and not isinstance(n, (ast.FunctionDef, ast.Import, ast.ImportFrom)):
                if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant): continue
                lines.add(n.lineno)
        got = {l for (m, l) in E.covered if m == self.module}
        return sorted(lines - got)


class Lemma:
    """A stand-alone lemma over the specification functions: obligations with
    no program text (induction steps etc.)."""
    name = ""
    def obligations(self, E): raise NotImplementedError
    def verify(self, stats=None):
        res = NS(key=("lemma", self.name), status="?", obligations=[], reason="", secs=0, paths=0, uncovered=[], inlined=[], used=[], line=None)
        t0 = time.time()
        E = Engine(Program(), {}, "lemma:" + self.name, stats=stats)
        E.timeout_ms = getattr(self, "timeout_ms", 20000)
        try:
            E.explore(lambda: self.obligations(E))
            res.obligations = E.obligations
            res.status = "proved" if E.obligations and all(o.status == "proved" for o in E.obligations) else "failed"
        except Unsupported as u:
            res.status, res.reason = "unsupported", str(u)
        res.secs = time.time() - t0
        return res
