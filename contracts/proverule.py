"""Contract of Proof_System.prove_rule (C06): the generalised replay.

X is one arbitrary assignment of integers to the variables the replay introduces, so everything shown holds for all of them.
REAL(t) says: at X, the first t loops of the replay are what the machine does.  What a loop of the simulator promises (C02-C05)
is assumed of gen_sim.step(): it is real
  - when every variable is at least 0 and the block read was tested to be non-empty for all of these, or
  - when no block before or after it is empty at X and what the rules used in it require holds at X.
C(t, i) is the count, at X, of block i after t loops.  The rule handed out must be true at X whenever X puts every count at or above
the rule's minimum: the replay is real, the result is the replay's, rewritten to the rule's own variables."""
import ast, math, z3
from pyvc.engine import *
from pyvc.contract import *
PS, AE = "Macro.Proof_System", "Algebraic_Expression"
INF = math.inf; I, B = z3.IntSort(), z3.BoolSort()
class Sh: pass
def view(E, st, off, n): return Obj(E, "BlkSeq", {"store": st, "off": off, "n": n})
def mk_tape(E, kind, n0, n, t=None, **fields):
    st = Obj(E, "Store", dict(fields)); st.meta.update(kind=kind, t=t)
    return E.new("Macro.Tape", "Chain_Tape", dir=E.int("dir"), options=Opaque("o"), tape=PyList(E, [view(E, st, z3.IntVal(0), n0), view(E, st, n0, n - n0)]))
def store(t): return t.fields["tape"].items[0].fields["store"]
def cnt(E, j, c): return Obj(E, "Cnt", {"j": zi(j), "const": c})
def var(E, j): return Obj(E, "Var", {"j": zi(j)})
def blk_attr(E, o, name):
    g = E.ghost; sh = g["sh"]; st, j = o.fields["store"], o.fields["j"]; F = st.fields; k = st.meta["kind"]
    if name == "id": return E.int("id")
    if name == "symbol": return Opaque("symbol")
    if name != "num": return MISSING
    if k == "gen":
        g["at"] = j
        if E.branch(zb(sh.inf(j))): return INF
        return cnt(E, j, F["num"](j)) if E.branch(zb(F["isx"](j))) else F["num"](j)
    t = st.meta["t"]
    if E.branch(zb(sh.infB(t, j))): return INF
    if k == "sim":
        s = st.meta.get("subst")
        if s is not None and E.branch(zb(F["sub"](j))): raise Unsupported("substituted twice")
        return Obj(E, "SCnt", {"t": t, "i": j})
    if E.branch(zb(F["raw"](j))): return Obj(E, "Diff", {"j": j})
    if E.branch(zb(F["done"](j))): return F["val"](j)
    return Obj(E, "SCnt", {"t": t, "i": j})
def upd(E, o, f, j, v): old = o.fields[f]; E.note_write("field", o, f); o.fields[f] = lambda i: Ite(i == j, v, old(i))
T, FL = z3.BoolVal(True), z3.BoolVal(False)
def blk_set(E, o, name, v):
    if name == "id": return True
    if name != "num": raise Unsupported("block attribute " + name)
    g = E.ghost; sh = g["sh"]; st, j = o.fields["store"], o.fields["j"]; k = st.meta["kind"]
    if isinstance(v, float): E.prove("an infinite count only in an infinite block", sh.inf(j) if k == "gen" else sh.infB(st.meta["t"], j)); return True
    E.prove("infinite blocks stay infinite", Not(sh.inf(j) if k == "gen" else sh.infB(st.meta["t"], j)))
    if k == "gen":
        if not (isinstance(v, Obj) and v.cls == "Cnt"): raise Unsupported("count")
        E.prove("a block keeps its own variable", v.fields["j"] == j); upd(E, st, "isx", j, T); upd(E, st, "num", j, zi(v.fields["const"])); return True
    if k == "diff":
        if isinstance(v, Obj) and v.cls == "Diff": E.prove("difference of the same block", v.fields["j"] == j); upd(E, st, "raw", j, T); upd(E, st, "done", j, FL); return True
        if isinstance(v, Obj): raise Unsupported("difference")
        upd(E, st, "raw", j, FL); upd(E, st, "done", j, T); upd(E, st, "val", j, zi(v)); return True
    if not (isinstance(v, Obj) and v.cls == "Sub" and isinstance(v.fields["of"], Obj) and v.fields["of"].cls == "SCnt"): raise Unsupported("result count")
    E.prove("the result's own count, rewritten", And(v.fields["of"].fields["i"] == j, v.fields["of"].fields["t"] == st.meta["t"])); st.meta["subst"] = v.fields["map"]; upd(E, st, "sub", j, T); return True
def st_havoc(E, o, f):
    if f == "isx" or f in ("raw", "done", "sub"): h = E.func(f, I, B)
    else: h = E.func(f, I, I)
    o.fields[f] = lambda i: h(i); return True
def seq_iter(E, o): return o.fields["n"], lambda k: Obj(E, "Blk", {"store": o.fields["store"], "j": o.fields["off"] + zi(k)})
def seq_get(E, o, k):
    if not (isinstance(k, int) and k == -1): raise Unsupported("block of a tape half")
    return Obj(E, "Blk", {"store": o.fields["store"], "j": o.fields["off"] + o.fields["n"] - 1})
def seq_add(E, op, a, b):
    if not isinstance(op, ast.Add) or a.fields["store"] is not b.fields["store"]: raise Unsupported("tape operation")
    E.prove("the two halves of one tape", And(a.fields["off"] == 0, b.fields["off"] == a.fields["n"])); return view(E, a.fields["store"], a.fields["off"], a.fields["n"] + b.fields["n"])
def initden(E, v): return E.ghost["X"](v.fields["j"]) + zi(v.fields["const"]) if isinstance(v, Obj) else zi(v)
def num_binop(E, op, a, b):
    g = E.ghost; sg = 1 if isinstance(op, ast.Add) else -1 if isinstance(op, ast.Sub) else None
    if sg is None: raise Unsupported("count operation")
    if isinstance(a, Obj) and a.cls == "Cnt" and not isinstance(b, Obj): return cnt(E, a.fields["j"], zi(a.fields["const"]) + sg * zi(b))
    if isinstance(a, Obj) and a.cls == "Req" and not isinstance(b, Obj): return Obj(E, "Req", dict(a.fields, add=a.fields["add"] + sg * zi(b)))
    if isinstance(a, Obj) and a.cls == "SCnt" and sg == -1:
        j = a.fields["i"]; bj = b.fields["j"] if isinstance(b, Obj) and b.cls == "Cnt" else None; sh = g["sh"]
        E.prove("the difference to the count the block started with", initden(E, b) == Ite(sh.gen(j), g["X"](j) + g["init"](j), sh.cur(j))); return Obj(E, "Diff", {"j": j}) if E.branch(zb(g["isE"](j))) else g["d"](j)
    raise Unsupported("count operation on %r, %r" % (a, b))
def is_expr(E, x):
    if not isinstance(x, Obj): return MISSING
    if x.cls in ("Cnt", "Sub", "SNum", "Diff"): return True
    return MISSING
def cnt_attr(E, o, name):
    if name == "const": return o.fields["const"]
    if name == "variable_restricted": return lambda E: var(E, o.fields["j"])
    if name == "substitute":
        def sub(E, d):
            if not (isinstance(d, PyDict) and len(d.d) == 1): raise Unsupported("substitution")
            (k, v), = d.d.items(); E.prove("the block's own variable by itself plus a constant", And(k.fields["j"] == o.fields["j"], v.cls == "Cnt" and v.fields["j"] == o.fields["j"])); return cnt(E, o.fields["j"], zi(o.fields["const"]) + zi(v.fields["const"]))
        return sub
    return MISSING
def diff_attr(E, o, name):
    g = E.ghost
    if name == "is_const": return g["isC"](o.fields["j"])
    if name == "const": E.prove("a constant difference", g["isC"](o.fields["j"])); return g["d"](o.fields["j"])
    return MISSING
def new_map(E): return Obj(E, "VMap", {"has": lambda i: FL, "get": lambda i: z3.IntVal(0)})
def mval(E, j, v):
    if isinstance(v, Obj):
        if v.cls != "Cnt": raise Unsupported("map value")
        E.prove("a variable is replaced by itself plus a constant", v.fields["j"] == j); return zi(v.fields["const"])
    return zi(v)
def m_set(E, o, x, v):
    if not (isinstance(x, Obj) and x.cls == "Var"): raise Unsupported("map key")
    j = x.fields["j"]; upd(E, o, "has", j, T); upd(E, o, "get", j, mval(E, j, v))
def m_get(E, o, x):
    j = x.fields["j"]
    if not E.branch(zb(o.fields["has"](j))): raise PyRaise("KeyError")
    return o.fields["get"](j)
def m_havoc(E, o, f): h = E.func(f, I, B if f == "has" else I); o.fields[f] = lambda i: h(i); return True
def l_attr(E, o, name):
    if name != "append": return MISSING
    def app(E, v):
        n, g = o.fields["n"], o.fields["get"]; E.note_write("field", o, "n"); E.note_write("field", o, "get")
        if o.fields["kind"] == "v":
            if not (v is None or isinstance(v, Obj) and v.cls == "Var"): raise Unsupported("list of variables")
            x = z3.IntVal(-1) if v is None else v.fields["j"]
        else:
            x = z3.IntVal(-1) if isinstance(v, float) else zi(v)
        o.fields["get"] = lambda i: Ite(i == n, x, g(i)); o.fields["n"] = n + 1
    return app
def l_havoc(E, o, f):
    if f == "n": o.fields["n"] = E.int("n"); return True
    if f == "get": h = E.func("item", I, I); o.fields["get"] = lambda i: h(i); return True
def vs_attr(E, o, name): return MISSING
def gs_attr(E, o, name):
    g = E.ghost; sh = g["sh"]; F = o.fields
    if name == "verbose_print": return lambda E: None
    if name == "step":
        def step(E):
            t = g["t"]; tp = F["tape"]; p = F.get("prover")
            E.prove("the block read was tested to be non-empty for every assignment", And(g["tested"][0] == t, g["tested"][1] >= 1) if g["tested"] is not None else False); E.prove("continues in the direction of its tape", F["dir"] is tp.fields["dir"] if "dir" in F else False)
            if isinstance(p, Obj):
                q = p.fields.get("requirements")
                if not (isinstance(q, PyList) and not q.items): E.prove("earlier requirements were taken into account", False)
            n = t + 1; g["t"] = n; nt = mk_tape(E, "sim", sh.n0B(n), sh.nB(n), n, sub=lambda i: FL); d = E.int("dir"); E.assume(Or(d == 0, d == 1)); nt.fields["dir"] = d; step_axioms(E, t)
            for k, v in (("tape", nt), ("dir", d), ("op_state", E.case("Running", "Halt")), ("num_loops", zi(F["num_loops"]) + 1), ("num_rule_moves", E.int("rule_moves"))): E.setfield(o, k, v)
            if isinstance(p, Obj): E.setfield(p, "requirements", SymSeq(E, lambda i: Obj(E, "Req", {"t": n, "i": zi(i), "add": 0}), sh.nR(n), "list"))
            else: E.assume(sh.nR(n) == 0)
        return step
    return MISSING
def abbrev(E, key, keep, rng, body, pat):
    """a truth value that stands for `body of every index in range' (with a witness when it is false)"""
    c = E.ghost.setdefault("abbrev", {})
    if key not in c:
        b, w = E.bool(key[0]), E.int("w"); c[key] = (keep, b); E.assume(Forall([I], lambda i: Implies(And(b, rng(i)), body(i)), patterns=lambda i: [pat(i)])); E.assume(Or(b, And(rng(w), Not(body(w)))))
    return c[key][1]
def pos(E, t): sh = E.ghost["sh"]; t = z3.simplify(t); return abbrev(E, ("no block empty", t.get_id()), t, lambda i: And(i >= 0, i < sh.nB(t), Not(sh.infB(t, i))), lambda i: sh.C(t, i) >= 1, lambda i: sh.C(t, i))
def reqs(E, t): sh = E.ghost["sh"]; t = z3.simplify(t); return abbrev(E, ("requirements hold", t.get_id()), t, lambda i: And(i >= 0, i < sh.nR(t)), lambda i: sh.Q(t, i) >= 0, lambda i: sh.Q(t, i))
def nonneg(E): g = E.ghost; sh = g["sh"]; return abbrev(E, ("none negative", 0), None, lambda j: And(j >= 0, j < sh.n, sh.gen(j)), lambda j: g["X"](j) >= 0, lambda j: g["X"](j))
def hold(E, mv): g = E.ghost; sh = g["sh"]; return abbrev(E, ("above the minima", id(mv)), mv, lambda j: And(j >= 0, j < sh.n, sh.gen(j)), lambda j: g["X"](j) >= 1 - mv(j), lambda j: sh.gen(j))
def step_axioms(E, t):
    g = E.ghost; sh = g["sh"]; R0, R = g["REAL0"], g["REAL"]
    E.assume(R0(t + 1) == R0(t)); E.assume(Implies(And(R(t), pos(E, t), pos(E, t + 1), reqs(E, t + 1)), R(t + 1)))
    E.assume(And(sh.nB(t + 1) >= sh.n0B(t + 1), sh.n0B(t + 1) >= 0, sh.nR(t + 1) >= 0)); E.assume(Forall([I], lambda i: sh.nv(t + 1, i) >= 0, patterns=lambda i: [sh.C(t + 1, i)])); E.assume(Forall([I], lambda i: sh.rnv(t + 1, i) >= 0, patterns=lambda i: [sh.Q(t + 1, i)]))
class Stub(Contract):
    assumed = True
    def __init__(self, module, qualname, why, fn): self.module, self.qualname, self.why, self.fn = module, qualname, why, fn; self.params = []
    def apply_call(self, E, f, argv): return self.fn(E, *argv)
def c_copy(E, t):
    st = store(t); vs = t.fields["tape"].items; n0 = vs[0].fields["n"]; n = n0 + vs[1].fields["n"]; k = st.meta["kind"]; g = E.ghost
    if k == "sim":
        if st.meta.get("subst") is not None: raise Unsupported("copy of a rewritten tape")
        r = mk_tape(E, "diff", n0, n, st.meta["t"], raw=lambda i: FL, done=lambda i: FL, val=lambda i: z3.IntVal(0))
    else: r = mk_tape(E, k, n0, n, st.meta["t"], **st.fields)
    r.fields["dir"] = t.fields["dir"]; return r
def c_strip(E, state, d, tape):
    g = E.ghost; t = g["gs"].fields["tape"]; E.prove("strips the configuration the replay ended in", And(tape is t.fields["tape"], d is t.fields["dir"], state is g["gs"].fields["state"])); return Obj(E, "SC", {"id": E.int("stripped"), "t": g["t"]})
def sc_eq(E, a, b):
    g = E.ghost; sh = g["sh"]; r = E.branch(a.fields["id"] == b.fields["id"])
    if r: t = g["t"]; g["same"] = True; E.assume(And(sh.nB(t) == sh.n, sh.n0B(t) == sh.n0)); E.assume(Forall([I], lambda i: sh.infB(t, i) == sh.inf(i), patterns=lambda i: [sh.infB(t, i)])); E.assume(Forall([I], lambda j: Implies(zb(g["isC"](j)), sh.C(t, j) - Ite(sh.gen(j), g["X"](j) + g["init"](j), sh.cur(j)) == g["d"](j)), patterns=lambda j: [g["d"](j)]))
    return r
def c_vars(E, x):
    sh = E.ghost["sh"]
    if isinstance(x, Obj) and x.cls in ("SCnt", "Req"):
        t, i = x.fields["t"], x.fields["i"]; nv, vx = (sh.nv, sh.vx) if x.cls == "SCnt" else (sh.rnv, sh.rvx); E.assume([nv(t, i) >= 0, Implies(nv(t, i) == 1, And(vx(t, i) >= 0, vx(t, i) < sh.n, sh.gen(vx(t, i))))]); return Obj(E, "VarSet", {"n": nv(t, i), "x": vx(t, i)})
    if isinstance(x, float) or not isinstance(x, Obj): return Obj(E, "VarSet", {"n": z3.IntVal(0), "x": z3.IntVal(-1)})
    raise Unsupported("variables of %r" % (x,))
def vs_list(E, o): E.prove("one variable", o.fields["n"] == 1); return PyList(E, [var(E, o.fields["x"])])
def c_shift(E, x):
    g = E.ghost; sh = g["sh"]
    if not (isinstance(x, Obj) and x.cls in ("SCnt", "Req")): raise Unsupported("max_shift")
    t, i = x.fields["t"], x.fields["i"]
    if x.cls == "SCnt": E.assume(Implies(And(sh.nv(t, i) == 1, g["X"](sh.vx(t, i)) >= 1 - sh.ms(t, i)), sh.C(t, i) >= 1)); return sh.ms(t, i)
    m = E.int("shift"); E.assume(Implies(And(sh.rnv(t, i) == 1, g["X"](sh.rvx(t, i)) >= 1 - m), sh.Q(t, i) + zi(x.fields["add"]) >= 1)); return m
def c_subst(E, x, m):
    if not isinstance(x, Obj): return x
    if isinstance(x, Obj) and x.cls in ("SCnt", "SNum", "Seen") and isinstance(m, Obj) and m.cls == "VMap": return Obj(E, "Sub", {"of": x, "map": m})
    raise Unsupported("substitution into %r" % (x,))
def c_minval(E, x):
    if "kind" in E.ghost: return c_minval2(E, x)
    if not (isinstance(x, Obj) and x.cls == "TopN"): raise Unsupported("least value of %r" % (x,))
    m = E.int("least"); E.ghost["tested"] = (x.fields["t"], m); return m
def gs_top(E, o, name):
    if name == "get_top_block": return lambda E: Obj(E, "Top", {"t": E.ghost["t"], "tape": o})
    return MISSING
def top_attr(E, o, name):
    if name == "id": return E.int("id")
    if name == "num": return Obj(E, "TopN", {"t": o.fields["t"], "top": True}) if o.fields["tape"] is E.ghost["gs"].fields["tape"] else Opaque("count")
    return MISSING
def c_eval(E, x):
    if isinstance(x, float): return x
    if E.choose(2) == 0: E.assume(zi(x) > 2**20); return None
    return zi(x)
def c_newvar(E, c, args, kw): return var(E, E.ghost["at"])
def record(kind):
    def f(E, *args):
        if kind in ("Linear_Rule", "Exponential_Rule") and E.choose(2) == 0: return False
        g = E.ghost; g["made"] = (kind, args); return Obj(E, "Rule", {"has_collatz_decrease": E.bool("cd")})
    return f
def newrule(kind):
    def f(E, c, args, kw):
        g = E.ghost; g["made"] = (kind, args, dict(kw)); return Obj(E, "Rule", {"has_collatz_decrease": E.bool("cd")})
    return f
def c_sim(E, c, args, kw):
    g = E.ghost; o = args[1] if len(args) > 1 else kw["options"]
    E.prove("replays the machine itself", args[0] is g["ps"].fields["machine"]); E.prove("the replay has no prover of its own and proves nothing", o.fields.get("prover") is False and o is not g["ps"].fields["options"] and kw.get("init_tape") is False and kw.get("is_base_simulator") is False)
    s = Obj(E, "GenSim", {"state": None, "step_num": None, "prover": None, "tape": None, "dir": None, "op_state": "Running", "num_loops": 0, "num_rule_moves": 0, "states_last_seen": Obj(E, "GLS", {}), "verbose_prefix": ""}); g["gs"] = s; return s
def c_copyobj(E, x):
    if not isinstance(x, Obj): raise Unsupported("copy")
    r = Obj(E, x.cls, dict(x.fields)); r.meta.update(x.meta); return r
def dictcomp(E, e):
    it = E.eval(e.generators[0].iter)
    if not (isinstance(it, Obj) and it.cls == "GLSItems"): return MISSING
    fr = E.frames[-1]; g = e.generators[0]; nf = Frame(fr.func, dict(fr.locals), fr.module, fr.closure); E.frames.append(nf); q = E.int("q"); sn = Obj(E, "Seen", {"q": q})
    try: E.assign(g.target, (q, sn)); k, v = E.eval(e.key), E.eval(e.value)
    finally: E.frames.pop()
    if not (isinstance(v, Obj) and v.cls == "Sub" and v.fields["of"] is sn and z3.eq(zi(k), q) and not g.ifs): raise Unsupported("last visits")
    return Obj(E, "LS", {"map": v.fields["map"]})
EXTS = {("Blk", "attr"): blk_attr, ("Blk", "setattr"): blk_set, ("Store", "havoc"): st_havoc, ("BlkSeq", "iter"): seq_iter, ("BlkSeq", "getitem"): seq_get, ("BlkSeq", "len"): lambda E, o: o.fields["n"], ("binop", "BlkSeq"): seq_add, ("binop", "Cnt"): num_binop, ("binop", "SCnt"): num_binop, ("binop", "Req"): num_binop, ("isinstance", "Expression"): is_expr,
        ("Cnt", "attr"): cnt_attr, ("Diff", "attr"): diff_attr, ("VMap", "setitem"): m_set, ("VMap", "getitem"): m_get, ("VMap", "havoc"): m_havoc, ("GList", "attr"): l_attr, ("GList", "havoc"): l_havoc, ("GenSim", "attr"): gs_attr, ("VarSet", "len"): lambda E, o: o.fields["n"], ("VarSet", "list"): vs_list, ("SC", "eq"): sc_eq,
        ("Top", "attr"): top_attr, ("Chain_Tape", "attr"): gs_top, ("new", "Variable"): c_newvar, ("new", "Simulator"): c_sim, ("external", "copy.copy"): c_copyobj, ("dictcomp", "*"): dictcomp, ("GLS", "attr"): lambda E, o, n: (lambda E: Obj(E, "GLSItems", {})) if n == "items" else MISSING,
        ("new", "General_Rule"): newrule("General_Rule"), ("new", "Diff_Rule"): newrule("Diff_Rule"), ("new", "Limited_Diff_Rule"): newrule("Limited_Diff_Rule"), ("Diff", "eq"): lambda E, a, b: False, ("SCnt", "eq"): lambda E, a, b: False, ("Opts", "setattr"): lambda E, o, n, v: (E.setfield(o, n, v), True)[1]}
STUBS = [Stub("Macro.Tape", "Chain_Tape.copy", "verified for C02", c_copy), Stub(PS, "strip_config", "verified: rulegen (keeps direction, symbols and the number of blocks)", c_strip), Stub(AE, "variables", "verified for C14", c_vars), Stub(AE, "substitute", "verified for C14", c_subst),
         Stub(AE, "min_val", "verified for C14", c_minval), Stub("Exp_Int", "try_eval", "verified for C13", c_eval), Stub(AE, "VarPlusConstExpression", "verified for C14", lambda E, x, c: cnt(E, x.fields["j"], zi(c))), Stub(AE, "VariableToExpression", "verified for C14", lambda E, x: cnt(E, x.fields["j"], z3.IntVal(0))),
         Stub(AE, "ConstantToExpression", "verified for C14", lambda E, c: Obj(E, "SNum", {"const": c})), Stub(AE, "is_const", "verified for C14", lambda E, x: not isinstance(x, Obj)), Stub(PS, "Linear_Rule.try_gen", "builds the rule it is given the result of, or none (bounded)", record("Linear_Rule")), Stub(PS, "Exponential_Rule.try_gen", "builds the rule it is given the result of, or none (bounded)", record("Exponential_Rule"))]
class ProveRule(Contract):
    """a rule is handed out only if it is true for every choice of counts at or above its minima"""
    module = PS; qualname = "Proof_System.prove_rule"; params = ["self", "stripped_config", "full_config", "delta_loop"]; feas_ms = 60; timeout_ms = 15000; budget_s = 400
    def args(self, E):
        sh = Sh(); g = E.ghost; fi = lambda n, *s: E.func(n, *s)
        sh.n0, sh.n = E.int("n0"), E.int("n"); sh.inf, sh.cur, sh.gen = fi("isinf", I, B), fi("cur", I, I), fi("generalised", I, B); sh.nB, sh.n0B, sh.infB, sh.nv, sh.vx, sh.ms, sh.C = fi("blocks", I, I), fi("left_blocks", I, I), fi("inf_at", I, I, B), fi("nvars", I, I, I), fi("var_of", I, I, I), fi("shift_of", I, I, I), fi("count", I, I, I); sh.nR, sh.rnv, sh.rvx, sh.Q = fi("nreqs", I, I), fi("req_nvars", I, I, I), fi("req_var", I, I, I), fi("requirement", I, I, I)
        E.assume([sh.n0 >= 1, sh.n >= sh.n0 + 1]); E.assume(Forall([I], lambda j: And(sh.gen(j) == And(Not(sh.inf(j)), sh.cur(j) != 1), Implies(Not(sh.inf(j)), sh.cur(j) >= 1)), patterns=lambda j: [sh.gen(j)])); E.assume(Forall([I], lambda j: And(sh.gen(j) == And(Not(sh.inf(j)), sh.cur(j) != 1), Implies(Not(sh.inf(j)), sh.cur(j) >= 1)), patterns=lambda j: [sh.cur(j)]))
        X = fi("X", I, I); g.update(sh=sh, X=X, REAL=fi("real", I, B), REAL0=fi("real_from_0", I, B), t=z3.IntVal(0), tested=None, d=fi("difference", I, I), isC=fi("const_difference", I, B), isE=fi("expr_difference", I, B), init=None, same=False)
        E.assume([g["REAL"](0), g["REAL0"](0)]); E.assume(Forall([I], lambda j: Implies(Not(g["isE"](j)), g["isC"](j)), patterns=lambda j: [g["isE"](j)]))
        tp = mk_tape(E, "gen", sh.n0, sh.n, None, isx=lambda i: FL, num=lambda i: sh.cur(i)); rec = E.case(True, False); comp = E.case(True, False)
        opt = Obj(E, "Opts", {"recursive": rec, "prover": True, "verbose_prover": False, "verbose_simulator": False, "limited_rules": False, "compute_steps": comp})
        ps = E.new(PS, "Proof_System", machine=Opaque("machine"), options=opt, verbose=False, verbose_prefix="", recursive=rec, frozen=False, past_configs=Opaque("past"), rules=Opaque("rules"), compute_steps=comp, num_rules=E.int("num_rules"), **{k: E.int(k) for k in ("num_loops", "num_linear_rules", "num_exponential_rules", "num_gen_rules", "num_collatz_rules", "num_failed_proofs")})
        g.update(ps=ps, comp=comp, rec=rec); return NS(self=ps, stripped_config=Obj(E, "SC", {"id": E.int("sc")}), full_config=(E.int("state"), tp, E.int("step"), E.int("loop")), delta_loop=E.int("delta"))
    def modifies(self, E, a): return [(a.self, k) for k in ("num_loops", "num_linear_rules", "num_exponential_rules", "num_gen_rules", "num_collatz_rules")]
    def loops(self):
        name = lambda s: ast.unparse(s.iter) if isinstance(s, ast.For) else ""
        def maps(E, env):
            for nm, v in list(env.fr.locals.items()):
                if isinstance(v, PyDict) and not v.d: env.fr.locals[nm] = new_map(E)
                elif isinstance(v, PyList) and not v.items: env.fr.locals[nm] = Obj(E, "GList", {"n": z3.IntVal(0), "get": lambda i: z3.IntVal(0), "kind": "v" if nm == "var_list" else "n"})
        keep = lambda E, fr, n: fr.locals[n] if isinstance(fr.locals[n], Obj) else MISSING
        def maps_of(E, fr, mins): return [(v, f) for v in fr.locals.values() if isinstance(v, Obj) and v.cls == "VMap" and (E.ghost.get("mvobj", v) is v) == mins for f in ("has", "get")]
        allm = lambda E, fr: maps_of(E, fr, True)
        othm = lambda E, fr: maps_of(E, fr, False)
        # 1. generalise the counts
        def st_of(E, env): return store(E.ghost["gs"].fields["tape"])
        def off(E, env, key="direction"):
            d = env.fr.locals.get((E.rename or {}).get(key, key))
            if d not in (0, 1): raise Unbound(key)
            return d
        def inv1(E, env):
            g = E.ghost; sh = g["sh"]; F = st_of(E, env).fields; d = off(E, env); J = (z3.IntVal(0) if d == 0 else sh.n0) + zi(env.extra["k"]); m = env.min_val
            if not (isinstance(m, Obj) and m.cls == "VMap"): raise Unsupported("minima")
            return [("generalised so far", Forall([I], lambda j: And(F["isx"](j) == And(j >= 0, j < J, sh.gen(j)), Implies(Not(F["isx"](j)), F["num"](j) == sh.cur(j)), Implies(F["isx"](j), F["num"](j) >= 1)), patterns=lambda j: [F["isx"](j)])), ("a minimum for each of them", Forall([I], lambda j: And(m.fields["has"](j) == F["isx"](j), Implies(m.fields["has"](j), m.fields["get"](j) == F["num"](j))), patterns=lambda j: [m.fields["has"](j)]))]
        L1 = Loop("generalise", inv1, pre=maps, frame=lambda E, fr: [(store(E.ghost["gs"].fields["tape"]), "isx"), (store(E.ghost["gs"].fields["tape"]), "num")] + allm(E, fr), havoc_local=keep, match=lambda E, s, fr: isinstance(s, ast.For) and not E.ghost.get("started"))
        # 2. the replay
        def mv(env): return env.min_val.fields["get"]
        def inv2(E, env):
            g = E.ghost; sh = g["sh"]; t = g["t"]; m = mv(env); h = env.min_val.fields["has"]
            return [("a minimum for every variable", Forall([I], lambda j: Implies(And(j >= 0, j < sh.n, sh.gen(j)), h(j)), patterns=lambda j: [sh.gen(j)])), ("loops counted", And(zi(g["gs"].fields["num_loops"]) == t, t >= 0)), ("real for all assignments from 0 on", Implies(nonneg(E), g["REAL0"](t))), ("real for all assignments that respect the minima", Implies(hold(E, m), And(g["REAL"](t), pos(E, t)))), ("still running", g["gs"].fields["op_state"] == "Running"), ("runs in the direction of its tape", g["gs"].fields["dir"] is g["gs"].fields["tape"].fields["dir"])]
        def pre2(E, env):
            g = E.ghost; sh = g["sh"]; g["started"] = True; gs = g["gs"]; g["mvobj"] = env.min_val; F = dict(store(gs.fields["tape"]).fields); g["init"] = F["num"]; t0 = z3.IntVal(0)
            it = [v for v in env.fr.locals.values() if isinstance(v, Obj) and getattr(v.cls, "name", "") == "Chain_Tape" and v is not env.fr.locals["full_config"][1] and v is not gs.fields["tape"]]
            if len(it) != 1: raise Unsupported("initial tape")
            E.prove("the initial tape is kept aside", it[0] is not gs.fields["tape"] and store(it[0]) is not store(gs.fields["tape"])); E.prove("replays the configuration it was given", And(gs.fields["state"] is env.fr.locals["full_config"][0], isinstance(gs.fields["step_num"], Obj) and gs.fields["step_num"].cls == "SNum" and E.truth_eq(gs.fields["step_num"].fields["const"], 0), gs.fields["dir"] is gs.fields["tape"].fields["dir"], gs.fields["dir"] is env.fr.locals["full_config"][1].fields["dir"]))
            p = gs.fields["prover"]
            if g["rec"]: E.prove("uses proven rules only", isinstance(p, Obj) and p is not g["ps"] and p.fields["frozen"] is True and p.fields["past_configs"] is None)
            E.assume(And(sh.nB(t0) == sh.n, sh.n0B(t0) == sh.n0)); E.assume(Forall([I], lambda i: And(sh.infB(t0, i) == sh.inf(i), sh.C(t0, i) == Ite(F["isx"](i), g["X"](i) + F["num"](i), F["num"](i))), patterns=lambda i: [sh.C(t0, i)]))
            st = Obj(E, "Store", {"sub": lambda i: FL}); st.meta.update(kind="sim", t=t0); old = gs.fields["tape"]; nt = mk_tape(E, "sim", sh.n0, sh.n, t0, sub=lambda i: FL); nt.fields["dir"] = old.fields["dir"]; gs.fields["tape"] = nt; g["finit"] = F
        def fresh_sim(E, env_fr):
            g = E.ghost; sh = g["sh"]; gs = g["gs"]; t = E.int("t"); g["t"] = t; g["tested"] = None; d = E.int("dir"); E.assume(Or(d == 0, d == 1)); nt = mk_tape(E, "sim", sh.n0B(t), sh.nB(t), t, sub=lambda i: FL); nt.fields["dir"] = d
            gs.fields.update(tape=nt, dir=d, num_loops=E.int("loops"), num_rule_moves=E.int("rule_moves"), op_state="Running"); E.assume([sh.n0B(t) >= 0, sh.nB(t) >= sh.n0B(t)])
            if isinstance(gs.fields["prover"], Obj): gs.fields["prover"].fields["requirements"] = PyList(E, [])
        def hv2(E, fr, n):
            v = fr.locals[n]
            if isinstance(v, PyDict): d = PyDict(E); [d.d.__setitem__(k, E.int("touched")) for k in v.d]; return d
            return v if isinstance(v, Obj) or v is None or isinstance(v, (PyList, tuple, str)) else MISSING
        GS = ("tape", "dir", "num_loops", "num_rule_moves", "op_state")
        def frame2(E, fr):
            gs = E.ghost["gs"]; p = gs.fields["prover"]; tch = [v for v in fr.locals.values() if isinstance(v, PyDict) and v.d]
            return [(gs, f) for f in GS] + ([(p, "requirements")] if isinstance(p, Obj) else []) + [(x, "*") for x in tch] + [(E.ghost["ps"], "num_loops")] + allm(E, fr)
        def hh2(E, fr, o, f):
            g = E.ghost
            if o is g["gs"]:
                if f == "tape": fresh_sim(E, fr)
                return True
            if isinstance(o, PyDict): [o.d.__setitem__(k, E.int("touched")) for k in o.d]; return True
            if o is g["gs"].fields["prover"]: return True
            return False
        def snap2(E, env): return mv(env)
        def after2(E, env, old):
            g = E.ghost; sh = g["sh"]; t = g["t"]
            # constants: counts without a variable are positive, requirements without one hold (the tape's invariant, checked when met)
            E.assume(Forall([I], lambda i: Implies(And(i >= 0, i < sh.nB(t), Not(sh.infB(t, i)), sh.nv(t, i) == 0), sh.C(t, i) >= 1), patterns=lambda i: [sh.C(t, i)])); E.assume(Forall([I], lambda i: Implies(And(i >= 0, i < sh.nR(t), sh.rnv(t, i) == 0), sh.Q(t, i) >= 0), patterns=lambda i: [sh.Q(t, i)]))
            E.prove("every minimum only falls", Forall([I], lambda j: Implies(And(j >= 0, j < sh.n, sh.gen(j)), mv(env)(j) <= old(j)), patterns=lambda j: [sh.gen(j)])); E.assume(Implies(hold(E, mv(env)), hold(E, old)))
            p = g["gs"].fields["prover"]
            if isinstance(p, Obj): E.prove("requirements are taken into account once", isinstance(p.fields["requirements"], PyList) and not p.fields["requirements"].items)
        def exit2(E, env): E.ghost["ended"] = True; E.ghost["mv"] = mv(env)
        L2 = Loop("replay", inv2, pre=pre2, frame=frame2, havoc_heap=hh2, havoc_local=hv2, snapshot=snap2, after=after2, exit=exit2, match=lambda E, s, fr: isinstance(s, ast.While))
        # 3. minima after a loop of the replay: its blocks, its requirements
        def inv3(E, env):
            g = E.ghost; sh = g["sh"]; t = g["t"]; d = off(E, env, "dir"); J = (z3.IntVal(0) if d == 0 else sh.n0B(t)) + zi(env.extra["k"]); m = mv(env); h = env.min_val.fields["has"]; ok = lambda i: And(sh.nv(t, i) <= 1, Implies(And(hold(E, m), sh.nv(t, i) == 1), sh.C(t, i) >= 1))
            return [("a minimum for every variable", Forall([I], lambda j: Implies(And(j >= 0, j < sh.n, sh.gen(j)), h(j)), patterns=lambda j: [sh.gen(j)])), ("minima only fall", Forall([I], lambda j: Implies(And(j >= 0, j < sh.n, sh.gen(j)), m(j) <= g["mv0"](j)), patterns=lambda j: [sh.gen(j)])), ("blocks so far are not empty above the minima", Forall([I], lambda i: Implies(And(i >= 0, i < J, Not(sh.infB(t, i))), ok(i)), patterns=lambda i: [sh.C(t, i)]))]
        def pre3(E, env):
            if "mv0" not in E.ghost: E.ghost["mv0"] = mv(env)
        L3 = Loop("minima", inv3, pre=pre3, frame=allm, havoc_local=keep, after=lambda E, env, old: E.assume(Implies(hold(E, mv(env)), hold(E, old))) if self.fell(E, mv(env), old) else None, snapshot=snap2, match=lambda E, s, fr: isinstance(s, ast.For) and not E.ghost.get("ended") and "requirements" not in name(s))
        def inv4(E, env):
            g = E.ghost; sh = g["sh"]; t = g["t"]; k = zi(env.extra["k"]); m = mv(env); h = env.min_val.fields["has"]
            return [("a minimum for every variable", Forall([I], lambda j: Implies(And(j >= 0, j < sh.n, sh.gen(j)), h(j)), patterns=lambda j: [sh.gen(j)])), ("minima only fall", Forall([I], lambda j: Implies(And(j >= 0, j < sh.n, sh.gen(j)), m(j) <= g["mv1"](j)), patterns=lambda j: [sh.gen(j)])), ("requirements so far hold above the minima", Forall([I], lambda i: Implies(And(i >= 0, i < k), And(sh.rnv(t, i) <= 1, Implies(And(hold(E, m), sh.rnv(t, i) == 1), sh.Q(t, i) >= 0))), patterns=lambda i: [sh.Q(t, i)]))]
        def pre4(E, env): E.ghost["mv1"] = mv(env)
        def exit4(E, env): E.prove("every minimum only falls", self.falls(E, mv(env), E.ghost["mv1"])); E.assume(Implies(hold(E, mv(env)), hold(E, E.ghost["mv1"])))
        L4 = Loop("requirements", inv4, pre=pre4, frame=allm, havoc_local=keep, exit=exit4, after=lambda E, env, old: E.assume(Implies(hold(E, mv(env)), hold(E, old))) if self.fell(E, mv(env), old) else None, snapshot=snap2, match=lambda E, s, fr: isinstance(s, ast.For) and not E.ghost.get("ended"))
        # 4. the differences
        def inv5(E, env):
            g = E.ghost; sh = g["sh"]; F = store(env.diff_tape).fields; d = off(E, env, "dir"); J = (z3.IntVal(0) if d == 0 else sh.n0) + zi(env.extra["k"]); b = env.is_diff_rule
            return [("differences so far", Forall([I], lambda j: Implies(Not(sh.inf(j)), And(Implies(Not(And(j >= 0, j < J)), And(Not(F["raw"](j)), Not(F["done"](j)))), Implies(And(j >= 0, j < J, g["isC"](j)), And(F["done"](j), Not(F["raw"](j)), F["val"](j) == g["d"](j))))), patterns=lambda j: [F["raw"](j)])), ("all constant so far", Implies(zb(E.truth(b)), Forall([I], lambda j: Implies(And(j >= 0, j < J, Not(sh.inf(j))), g["isC"](j)), patterns=lambda j: [g["isC"](j)]).as_z3(E)))]
        L5 = Loop("differences", inv5, frame=lambda E, fr: [(store(fr.locals["diff_tape"]), f) for f in ("raw", "done", "val")], havoc_local=keep, match=lambda E, s, fr: isinstance(s, ast.For) and not "diffed" in E.ghost and "zip" in name(s), exit=lambda E, env: E.ghost.update(diffed=True) if off(E, env, "dir") == 1 else None)
        # 5. a general rule: variables, minima, the rewriting
        def inv6(E, env):
            g = E.ghost; sh = g["sh"]; k = zi(env.extra["k"]); v, m, a = env.var_list, env.min_list, env.assignment
            if not all(isinstance(x, Obj) for x in (v, m, a)): raise Unsupported("lists")
            return [("one entry per block", And(v.fields["n"] == k, m.fields["n"] == k)), ("the variable of each block", Forall([I], lambda j: Implies(And(j >= 0, j < k), v.fields["get"](j) == Ite(sh.gen(j), j, -1)), patterns=lambda j: [sh.gen(j)])), ("its minimum", Forall([I], lambda j: Implies(And(j >= 0, j < k, sh.gen(j)), m.fields["get"](j) >= g["init"](j) - g["mv"](j) + 1), patterns=lambda j: [sh.gen(j)])), ("counts for variables", Forall([I], lambda j: And(a.fields["has"](j) == And(j >= 0, j < k, sh.gen(j)), Implies(a.fields["has"](j), a.fields["get"](j) == -g["init"](j))), patterns=lambda j: [a.fields["has"](j)]))]
        def fr6(E, fr): return othm(E, fr) + [(x, f) for x in fr.locals.values() if isinstance(x, Obj) and x.cls == "GList" for f in ("n", "get")]
        L6 = Loop("lists", inv6, pre=maps, frame=fr6, havoc_local=keep, match=lambda E, s, fr: isinstance(s, ast.For) and "initial_tape.tape[0]" in name(s))
        def inv7(E, env):
            g = E.ghost; F = store(g["gs"].fields["tape"]).fields; k = zi(env.extra["k"]); return [("rewritten so far", Forall([I], lambda j: Implies(And(j >= 0, j < g["sh"].n), F["sub"](j) == And(j < k, Not(g["sh"].inf(j)))), patterns=lambda j: [F["sub"](j)]))]
        def after7(E, env, old): st = store(E.ghost["gs"].fields["tape"]); s = st.meta.get("subst"); E.prove("all rewritten alike", s is None or s is env.assignment)
        def exit7(E, env): store(E.ghost["gs"].fields["tape"]).meta["subst"] = env.assignment
        L7 = Loop("rewrite", inv7, after=after7, exit=exit7, frame=lambda E, fr: [(store(E.ghost["gs"].fields["tape"]), "sub")], havoc_local=keep, match=lambda E, s, fr: isinstance(s, ast.For) and "result_tape.tape[0]" in name(s))
        # 6. a constant-difference rule: as general as possible
        def inv8(E, env):
            g = E.ghost; sh = g["sh"]; d = off(E, env, "dir"); J = (z3.IntVal(0) if d == 0 else sh.n0) + zi(env.extra["k"]); F = store(env.initial_tape).fields; r = env.replaces
            if not isinstance(r, Obj): raise Unsupported("replacements")
            return [("minima so far", Forall([I], lambda j: And(F["isx"](j) == And(j >= 0, j < sh.n, sh.gen(j)), Implies(F["isx"](j), F["num"](j) == g["init"](j) + Ite(j < J, r.fields["get"](j), 0))), patterns=lambda j: [F["isx"](j)])), ("replacements so far", Forall([I], lambda j: And(r.fields["has"](j) == And(j >= 0, j < J, sh.gen(j)), Implies(r.fields["has"](j), r.fields["get"](j) >= 1 - g["mv"](j))), patterns=lambda j: [r.fields["has"](j)]))]
        L8 = Loop("tighten", inv8, pre=maps, frame=lambda E, fr: [(store(fr.locals["initial_tape"]), f) for f in ("isx", "num")] + othm(E, fr), havoc_local=keep, match=lambda E, s, fr: isinstance(s, ast.For) and "initial_tape" in name(s))
        def inv9(E, env):
            g = E.ghost; sh = g["sh"]; F = store(env.diff_tape).fields; return [("the differences stay", Forall([I], lambda j: Implies(And(j >= 0, j < sh.n, Not(sh.inf(j))), And(F["done"](j), Not(F["raw"](j)), F["val"](j) == g["d"](j))), patterns=lambda j: [F["raw"](j)]))]
        L9 = Loop("fix", inv9, frame=lambda E, fr: [(store(fr.locals["diff_tape"]), f) for f in ("raw", "done", "val")], havoc_local=keep, match=lambda E, s, fr: isinstance(s, ast.For) and "diff_tape" in name(s))
        return [L1, L2, L5, L6, L7, L8, L9, L3, L4]
    def falls(self, E, m, old): sh = E.ghost["sh"]; return Forall([I], lambda j: Implies(And(j >= 0, j < sh.n, sh.gen(j)), m(j) <= old(j)), patterns=lambda j: [sh.gen(j)])
    def fell(self, E, m, old): E.prove("every minimum only falls", self.falls(E, m, old)); return True
    def post(self, E, old, a, r):
        g = E.ghost; sh = g["sh"]; mk = g.get("made")
        if r is False or r is None: return []
        if mk is None or not (isinstance(r, Obj) and r.cls == "Rule"): return [("a rule of the replay", False)]
        t = g["t"]; gs = g["gs"]; ini = lambda i: g["init"](i); allg = lambda body: Forall([I], lambda j: Implies(And(j >= 0, j < sh.n, sh.gen(j)), body(j)))
        out = [("the replay ran its course", zi(gs.fields["num_loops"]) >= zi(a.delta_loop)), ("and ended in the same stripped configuration", g["same"] is True)]
        kind, args = mk[0], mk[1]
        real = lambda lo: Implies(Forall([I], lambda j: Implies(And(j >= 0, j < sh.n, sh.gen(j)), g["X"](j) + ini(j) >= lo(j))).as_z3(E), Or(g["REAL"](t), And(g["REAL0"](t), nonneg(E))))
        if kind in ("Linear_Rule", "Exponential_Rule", "General_Rule"):
            v, m, res, ns = args[:4]; kw = mk[2] if len(mk) > 2 else {}; ls = args[6] if len(args) > 6 else kw.get("states_last_seen"); F = store(res).fields; asg = store(res).meta.get("subst")
            out += [("variables of the blocks", And(v.fields["n"] == sh.n, m.fields["n"] == sh.n, Forall([I], lambda j: Implies(And(j >= 0, j < sh.n), v.fields["get"](j) == Ite(sh.gen(j), j, -1))).as_z3(E))), ("true at and above the minima", real(lambda j: m.fields["get"](j))), ("the replay's result", res is gs.fields["tape"]), ("rewritten to the counts", And(Forall([I], lambda j: Implies(And(j >= 0, j < sh.n, Not(sh.inf(j))), F["sub"](j))).as_z3(E), asg is not None)), ("by the count less what the replay started with", allg(lambda j: And(asg.fields["has"](j), asg.fields["get"](j) == -ini(j))) if asg is not None else False)]
            amap = lambda j: -ini(j)
        else:
            it, df, st, ns = args[:4]; meta = args[6] if len(args) > 6 else None; ls = mk[2].get("states_last_seen") if len(mk[2]) else args[7]; Fi, Fd = store(it).fields, store(df).fields
            out += [("a variable exactly for the generalised blocks", Forall([I], lambda j: Implies(And(j >= 0, j < sh.n), Fi["isx"](j) == sh.gen(j)))), ("true at and above the minima", real(lambda j: Fi["num"](j))), ("the differences of the replay, all constant", Forall([I], lambda j: Implies(And(j >= 0, j < sh.n, Not(sh.inf(j))), And(g["isC"](j), Fd["done"](j), Not(Fd["raw"](j)), Fd["val"](j) == g["d"](j))))), ("for this state", st is a.full_config[0])]
            amap = (lambda j: Fi["num"](j) - ini(j))
        def rewritten(x, of):
            if isinstance(x, Obj) and x.cls == "SNum" and x is gs.fields["step_num"] or x is gs.fields["states_last_seen"]: return allg(lambda j: amap(j) == 0)
            if isinstance(x, Obj) and x.cls in ("Sub", "LS") and (x.cls == "LS" or x.fields["of"] is of): mp = x.fields["map"]; return allg(lambda j: And(mp.fields["has"](j), mp.fields["get"](j) == amap(j)))
            return False
        if g["comp"]: out += [("steps of the replay, rewritten alike", rewritten(ns, gs.fields["step_num"])), ("last visits of the replay, rewritten alike", rewritten(ls, None) if isinstance(ls, Obj) else False)]
        return out
def c_min(E, args, kw): return -INF if len(args) == 2 and any(isinstance(x, float) and x == -INF for x in args) else MISSING
class MaxShift(Contract):
    """a bound m such that the expression is positive at every x >= 1 - m: exact for c*x + k; otherwise no larger than 1 and than the least
    value from x = 0 on (an expression that can grow, grows by 1 at least with every unit of x)"""
    module = PS; qualname = "max_shift"; params = ["expr"]; exts = {("builtin", "min"): c_min}
    def args(self, E):
        g = E.ghost; k = E.case("linear", "power", "several", "number"); g["kind"] = k; c, b = E.int("c"), E.int("k"); g.update(c=c, k=b, least=None)
        if k == "number": return NS(expr=b)
        t = lambda p: E.new(AE, "Term", vars=(E.new(AE, "Var_Power", var=Opaque("x"), pow=p),), coef=c); E.assume(c != 0); p = E.int("p"); E.assume(p >= 2)
        return NS(expr=E.new(AE, "Expression", terms=(t(1),) if k == "linear" else (t(p),) if k == "power" else (t(p), t(1)), const=b, is_const=False))
    def post(self, E, old, a, r):
        g = E.ghost; x = E.int("x"); m = g["least"]
        if g["kind"] == "linear":
            if isinstance(r, float): return [("no bound", r == -INF)]
            if m is None: E.assume(x >= 1 - zi(r)); self.mult(E, g["c"], g["k"], x, zi(r)); return [("positive from there on", g["c"] * x + g["k"] >= 1)]
            return [("no more than the least value", And(zi(r) <= 1, zi(r) <= zi(m)))]
        if isinstance(r, float): return [("no bound", r == -INF)]
        return [("no more than the least value", And(m is not None and zi(r) <= 1, m is not None and (isinstance(m, float) or zi(r) <= zi(m))))]
    def apply_call(self, E, f, argv): return c_shift(E, *argv)
    def mult(self, E, c, k, x, r):
        for p, y, q, rr in E.ghost.get("divs", []): E.assume(Implies(And(y >= 0, x >= -q), y * x >= y * (-q))); E.assume(y * (-q) == -(y * q))
def c_minval2(E, x):
    g = E.ghost
    if g["kind"] == "number": g["least"] = g["k"]; return g["k"]
    m = -INF if E.choose(2) == 0 else E.int("least"); g["least"] = m
    if g["kind"] == "linear": E.assume(g["c"] > 0 if not isinstance(m, float) else g["c"] < 0); E.assume(m == g["k"]) if not isinstance(m, float) else None
    return m
CONTRACTS = STUBS + [ProveRule(), MaxShift()]
LEMMAS = []
