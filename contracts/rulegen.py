"""Contracts of the rules' constructors (C06): a linear rule is made only of functions that are exactly the replay's result, its minima are
those at which the functions were shown non-decreasing, and a rule is called infinite only when no count can fall.

x(i) is one arbitrary value of the variable of block i; P(i) stands for slope(i) * x(i).
Assumed: slopes are positive (a count with a negative slope would be negative for large counts), variables are true."""
import ast, math, z3
from pyvc.engine import *
from pyvc.contract import *
PS, AE, RF = "Macro.Proof_System", "Algebraic_Expression", "Macro.Rule_Func"
I, B = z3.IntSort(), z3.BoolSort(); INF = math.inf
T, FL = z3.BoolVal(True), z3.BoolVal(False)
class Sh: pass
def shape(E):
    sh = Sh(); g = E.ghost; g["sh"] = sh; sh.n0, sh.n = E.int("n0"), E.int("n"); E.assume([sh.n0 >= 1, sh.n >= sh.n0 + 1])
    sh.V = E.func("hasvar", I, B); sh.lin = E.func("linear", I, B); sh.expr = E.func("expression", I, B); sh.own = E.func("ownvar", I, B); sh.C = E.func("slope", I, I); sh.K = E.func("const", I, I); sh.P = E.func("slope_x", I, I); sh.x = E.func("x", I, I); sh.mn = E.func("min", I, I); sh.res = E.func("value", I, I)
    for k in ("EB", "EC", "EK", "ED", "EU", "EV", "nt"): setattr(sh, k, E.func(k, I, I))
    sh.elin, sh.elin2, sh.pw = E.func("exponent_expression", I, B), E.func("exponent_linear", I, B), E.func("power", I, I, I, I, I, I, I, I)
    E.assume(Forall([I], lambda i: And(sh.EB(i) > 1, sh.EC(i) > 0, sh.EU(i) > 0, sh.nt(i) >= 1, Implies(And(Not(sh.expr(i)), sh.nt(i) == 1, sh.elin(i), sh.elin2(i)), sh.res(i) == sh.pw(sh.EB(i), sh.EC(i), sh.EK(i), sh.ED(i), sh.EU(i), sh.EV(i), sh.x(i)))), patterns=lambda i: [sh.EB(i)]))
    E.assume(Forall([I], lambda i: And(sh.C(i) >= 1, Implies(sh.C(i) == 1, sh.P(i) == sh.x(i)), Implies(And(sh.expr(i), sh.lin(i)), sh.res(i) == sh.P(i) + sh.K(i))), patterns=lambda i: [sh.C(i)])); return sh
def tape(E, sh): return E.new("Macro.Tape", "Chain_Tape", dir=0, options=Opaque("o"), tape=PyList(E, [Obj(E, "RHalf", {"off": z3.IntVal(0), "n": sh.n0}), Obj(E, "RHalf", {"off": sh.n0, "n": sh.n - sh.n0})]))
def h_iter(E, o): return o.fields["n"], lambda k: Obj(E, "RBlk", {"i": o.fields["off"] + zi(k)})
def h_add(E, op, a, b):
    if not isinstance(op, ast.Add): raise Unsupported("tape operation")
    E.prove("the two halves of one tape", And(a.fields["off"] == 0, b.fields["off"] == a.fields["n"])); return Obj(E, "RHalf", {"off": a.fields["off"], "n": a.fields["n"] + b.fields["n"]})
def b_attr(E, o, name):
    if name == "num" and E.ghost.get("diff"): return E.ghost["sh"].res(o.fields["i"])
    if name == "num": return Obj(E, "Res", dict(o.fields))
    if name == "symbol": return Obj(E, "Sym", dict(o.fields))
    return MISSING
def h_comp(E, o, e): n, at = h_iter(E, o); E._symit = SymSeq(E, at, n); return E.do_sym_comp(e)
def l_comp(E, o, e):
    """[f(func) for func in functions]: f of a function and of None"""
    g = e.generators[0]; ii = E.int("i"); fr = E.frames[-1]; vs = []
    if g.ifs: raise Unsupported("comprehension")
    for x in (Obj(E, "Fn", {"i": ii}), None):
        nf = Frame(fr.func, dict(fr.locals), fr.module, fr.closure); E.frames.append(nf)
        try: E.assign(g.target, x); vs.append(E.eval(e.elt))
        finally: E.frames.pop()
    v, w = vs
    if isinstance(v, Obj) and v.cls == "Var" and w is None: E.prove("the function's own variable", v.fields["i"] == ii); return Obj(E, "VList", {})
    if is_z(v) and w is None: return Obj(E, "MList", {"get": lambda i: z3.substitute(v, (ii, zi(i)))})
    raise Unsupported("comprehension")
def res_attr(E, o, name):
    sh = E.ghost["sh"]; i = o.fields["i"]
    if name == "terms": return Obj(E, "Terms", dict(o.fields))
    if name == "const": return sh.EK(i)
    if name == "denom": return sh.ED(i)
    if name == "as_strictly_linear":
        def f(E):
            if not E.branch(zb(sh.lin(i))): return None
            return (Obj(E, "Var", {"i": i}) if E.branch(zb(sh.own(i))) else Obj(E, "Other", {}), sh.C(i), sh.K(i))
        return f
    return MISSING
def et_attr(E, o, name):
    sh = E.ghost["sh"]; i = o.fields["i"]
    if name == "base": return sh.EB(i)
    if name == "coef": return sh.EC(i)
    if name == "exponent": return Obj(E, "Exponent", dict(o.fields))
    return MISSING
def t_get(E, o, k):
    if k != 0: raise Unsupported("term")
    return Obj(E, "ETerm", dict(o.fields))
def ex_attr(E, o, name):
    sh = E.ghost["sh"]; i = o.fields["i"]
    if name != "as_strictly_linear": return MISSING
    def f(E):
        E.prove("asked of expressions only", sh.elin(i))
        if not E.branch(zb(sh.elin2(i))): return None
        return (Obj(E, "Var", {"i": i}) if E.branch(zb(sh.own(i))) else Obj(E, "Other", {}), sh.EU(i), sh.EV(i))
    return f
def isexpr(E, x):
    if isinstance(x, Obj) and x.cls == "Exponent": return E.branch(zb(E.ghost["sh"].elin(x.fields["i"])))
    return isexpr0(E, x)
def isexpr0(E, x): return E.branch(zb(E.ghost["sh"].expr(x.fields["i"]))) if isinstance(x, Obj) and x.cls == "Res" else MISSING
def isexpint(E, x): return not E.branch(zb(E.ghost["sh"].expr(x.fields["i"]))) if isinstance(x, Obj) and x.cls == "Res" else MISSING
def vs_eq(E, a, b):
    if not (isinstance(b, PySet) and len(b.items) == 1): raise Unsupported("set of variables")
    v, = b.items
    if not (isinstance(v, Obj) and v.cls == "Var"): raise Unsupported("set of variables")
    return And(E.ghost["sh"].own(a.fields["i"]), v.fields["i"] == a.fields["i"])
def var_eq(E, a, b): return And(a.fields["i"] == b.fields["i"]) if isinstance(b, Obj) and b.cls == "Var" else False
def vl_get(E, o, k): return Obj(E, "Var", {"i": zi(k)}) if E.branch(zb(E.ghost["sh"].V(zi(k)))) else None
def ml_get(E, o, k): return o.fields["get"](zi(k))
def ml_set(E, o, k, v): old = o.fields["get"]; E.note_write("field", o, "get"); o.fields["get"] = lambda i: Ite(i == zi(k), zi(v), old(i))
def ml_havoc(E, o, f):
    if f != "get": return False
    h = E.func("min", I, I); o.fields["get"] = lambda i: h(i); return True
# the list of functions being built: none(i), value at x(i), least argument, direction
FF = ("none", "val", "mn", "dec")
def flist(E): return Obj(E, "FList", {"n": z3.IntVal(0), "none": lambda i: T, "val": lambda i: z3.IntVal(0), "mn": lambda i: z3.IntVal(0), "dec": lambda i: FL, "own": lambda i: FL})
def f_attr(E, o, name):
    if name != "append": return MISSING
    def app(E, v):
        sh = E.ghost["sh"]; n = o.fields["n"]
        if v is None: d = dict(none=T, val=z3.IntVal(0), mn=z3.IntVal(0), dec=FL, own=FL)
        else:
            k = getattr(v.cls, "name", ""); F = v.fields
            if k not in ("Subtract_Func", "Add_Func", "Mult_Func", "Pow_Func"): raise Unsupported("function")
            if not (isinstance(F["var"], Obj) and F["var"].cls == "Var"): raise Unsupported("function of no variable")
            x = sh.x(n); d = dict(none=FL, mn=zi(F["min"]), dec=zb(E.truth(F["is_decreasing"])), own=F["var"].fields["i"] == n)
            if k == "Subtract_Func": d["val"] = x - zi(F["const"])
            elif k == "Pow_Func": d["val"] = sh.pw(*[zi(F[q]) for q in ("base", "coef_base", "const_base", "denom", "coef_exp", "const_exp")], x)
            elif k == "Add_Func": d["val"] = x + zi(F["const"])
            else:
                p = E.int("slope_times_x"); E.assume(Implies(zi(F["coef"]) == sh.C(n), p == sh.P(n))); d["val"] = p + zi(F["const"])
        for k, v in d.items():
            old = o.fields[k]; E.note_write("field", o, k); o.fields[k] = (lambda old, v: lambda i: Ite(i == n, v, old(i)))(old, v)
        E.note_write("field", o, "n"); o.fields["n"] = n + 1
    return app
def f_havoc(E, o, f):
    if f == "n": o.fields["n"] = E.int("n"); return True
    h = E.func(f, I, B if f in ("none", "dec", "own") else I); o.fields[f] = lambda i: h(i); return True
class Stub(Contract):
    assumed = True
    def __init__(self, module, qualname, why, fn): self.module, self.qualname, self.why, self.fn = module, qualname, why, fn; self.params = []
    def apply_call(self, E, f, argv): return self.fn(E, *argv)
def c_vars(E, x):
    if isinstance(x, Obj) and x.cls == "Res": return Obj(E, "RVars", dict(x.fields))
    raise Unsupported("variables")
def c_cmin(E, self, mn):
    """Mult_Func.compute_min, verified for C05: at least the minimum given, and from there on the function does not fall"""
    m = E.int("min"); E.assume(m >= zi(mn)); return m
def made(kind):
    def f(E, c, args, kw):
        if kw: raise Unsupported("keyword arguments")
        E.ghost["made"] = (kind, args); return Obj(E, "Rule", {})
    return f
def v2e(E, x): return Obj(E, "VExpr", {"of": x})
def ve_op(E, op, a, b): return Obj(E, "VExpr", {})
STUBS = [Stub(AE, "variables", "verified for C14", c_vars), Stub(RF, "Mult_Func.compute_min", "verified for C05", c_cmin), Stub("Exp_Int", "exp_int", "verified for C13", lambda E, b, x: Obj(E, "VExpr", {})), Stub(AE, "VariableToExpression", "verified for C14", v2e)]
EXTS = {("RHalf", "iter"): h_iter, ("RHalf", "len"): lambda E, o: o.fields["n"], ("binop", "RHalf"): h_add, ("RBlk", "attr"): b_attr, ("Res", "attr"): res_attr, ("isinstance", "Expression"): isexpr, ("isinstance", "ExpInt"): isexpint, ("RVars", "eq"): vs_eq, ("Var", "eq"): var_eq, ("Var", "truth"): lambda E, o: True,
        ("VList", "getitem"): vl_get, ("VList", "len"): lambda E, o: E.ghost["sh"].n, ("MList", "getitem"): ml_get, ("MList", "setitem"): ml_set, ("MList", "havoc"): ml_havoc, ("MList", "len"): lambda E, o: E.ghost["sh"].n, ("FList", "attr"): f_attr, ("FList", "havoc"): f_havoc, ("FList", "len"): lambda E, o: o.fields["n"], ("binop", "VExpr"): ve_op}
def exact(E, F, k, mn): sh = E.ghost["sh"]; return Forall([I], lambda j: Implies(And(j >= 0, j < k), And(F["none"](j) == Not(sh.V(j)), Implies(sh.V(j), And(F["own"](j), F["val"](j) == sh.res(j), F["mn"](j) >= mn(j), Implies(Not(F["dec"](j)), Or(sh.C(j) != 1, sh.K(j) >= 0)))))), patterns=lambda j: [F["none"](j)])
class LinearGen(Contract):
    """the rule, if any: for every block with a variable the function is the block's count in the result, in that variable; minima never fall"""
    module = PS; qualname = "Linear_Rule.try_gen"; params = ["var_list", "min_list", "result_tape", "num_steps", "num_loops", "rule_num", "states_last_seen"]; exts = {("new", "Linear_Rule"): made("Linear_Rule")}
    def args(self, E):
        sh = shape(E); return NS(var_list=Obj(E, "VList", {}), min_list=Obj(E, "MList", {"get": lambda i: sh.mn(i)}), result_tape=tape(E, sh), num_steps=Opaque("steps"), num_loops=E.int("loops"), rule_num=E.int("num"), states_last_seen=Opaque("seen"))
    def loops(self):
        def pre(E, env):
            for n, v in list(env.fr.locals.items()):
                if isinstance(v, PyList) and not v.items: env.fr.locals[n] = flist(E)
        def inv(E, env):
            k = zi(env.extra["k"]); F = env.func_list
            if not (isinstance(F, Obj) and F.cls == "FList"): raise Unsupported("functions")
            return [("one function per block", F.fields["n"] == k), ("each exactly the result", exact(E, F.fields, k, E.ghost["sh"].mn))]
        keep = lambda E, fr, n: fr.locals[n] if isinstance(fr.locals[n], Obj) and fr.locals[n].cls == "FList" else MISSING
        return [Loop("functions", inv, pre=pre, havoc_local=keep, frame=lambda E, fr: [(v, f) for v in fr.locals.values() if isinstance(v, Obj) and v.cls == "FList" for f in FF + ("own", "n")])]
    def post(self, E, old, a, r):
        mk = E.ghost.get("made"); sh = E.ghost["sh"]
        if r is False or r is None: return []
        if mk is None or not (isinstance(r, Obj) and r.cls == "Rule") or len(mk[1]) != 8: return [("a rule of these functions", False)]
        v, m, F, t, s, l, num, seen = mk[1]
        return [("the variables and minima given", And(v is a.var_list, m is a.min_list)), ("the result, steps and last visits given", And(t is a.result_tape, s is a.num_steps, E.truth_eq(l, a.num_loops), seen is a.states_last_seen)), ("one function per block", F.fields["n"] == sh.n), ("each exactly the result", exact(E, F.fields, sh.n, sh.mn))]
# a rule's functions, when it is built from them
def fn_iter(E, o): return E.ghost["sh"].n, lambda k: Obj(E, "Fn", {"i": zi(k)}) if E.branch(zb(E.ghost["sh"].V(zi(k)))) else None
def fn_get(E, o, k): return fn_iter(E, o)[1](k)
def fn_attr(E, o, name):
    sh = E.ghost["sh"]; i = o.fields["i"]
    if name == "min": return sh.fmin(i)
    if name == "is_decreasing": return sh.dec(i)
    if name == "var": return Obj(E, "Var", {"i": i})
    if name == "has_collatz_decrease": E.prove("asked of decreasing functions only", sh.dec(i)); return E.bool("collatz")
    return MISSING
def bl_set(E, o, k, v): old = o.fields["get"]; E.note_write("field", o, "get"); o.fields["get"] = lambda i: Ite(i == zi(k), zb(E.truth(v)), old(i))
def bl_havoc(E, o, f): h = E.func("flag", I, B); o.fields["get"] = lambda i: h(i); return True
def bl_iter(E, o): return o.fields["n"], lambda k: o.fields["get"](zi(k))
def c_any(E, args, kw):
    o = args[0]
    if not (isinstance(o, Obj) and o.cls == "BList"): return MISSING
    b, w, get, n = E.bool("any"), E.int("w"), o.fields["get"], o.fields["n"]; E.assume(Implies(b, And(w >= 0, w < n, get(w)))); E.assume(Implies(Not(b), Forall([I], lambda i: Implies(And(i >= 0, i < n), Not(get(i))), patterns=lambda i: [E.ghost["sh"].dec(i)]).as_z3(E))); return b
def c_all(E, args, kw):
    o = args[0]
    if not (isinstance(o, Obj) and o.cls == "BList"): return MISSING
    b, w, get, n = E.bool("all"), E.int("w"), o.fields["get"], o.fields["n"]; E.assume(Implies(Not(b), And(w >= 0, w < n, Not(get(w))))); E.assume(Implies(b, Forall([I], lambda i: Implies(And(i >= 0, i < n), get(i)), patterns=lambda i: [E.ghost["sh"].dec(i)]).as_z3(E))); return b
EXTS[("builtin", "all")] = c_all
EXTS.update({("RHalf", "comp"): h_comp, ("FnList", "iter"): fn_iter, ("FnList", "len"): lambda E, o: E.ghost["sh"].n, ("FnList", "getitem"): fn_get, ("FnList", "comp"): l_comp, ("Fn", "attr"): fn_attr, ("Fn", "truth"): lambda E, o: True, ("BList", "setitem"): bl_set, ("BList", "havoc"): bl_havoc, ("BList", "iter"): bl_iter, ("BList", "len"): lambda E, o: o.fields["n"], ("builtin", "any"): c_any})
def flags(E, env):
    """the list of flags, under the name the code gives it"""
    for o in [env.fr.locals["self"]]:
        for k, v in list(o.fields.items()):
            if isinstance(v, SymSeq) and isinstance(v.get(z3.IntVal(0)), bool): o.fields[k] = Obj(E, "BList", {"n": v.length, "get": (lambda s: lambda i: z3.BoolVal(s.get(i)))(v)})
def blists(E, fr): return [v for v in fr.locals["self"].fields.values() if isinstance(v, Obj) and v.cls == "BList"]
def dec_loop():
    def inv(E, env):
        sh = E.ghost["sh"]; k = zi(env.extra["k"]); bl = blists(E, env.fr)
        if len(bl) != 1: raise Unsupported("flags")
        return [("flags so far", Forall([I], lambda j: Implies(And(j >= 0, j < sh.n), bl[0].fields["get"](j) == And(j < k, sh.V(j), sh.dec(j))), patterns=lambda j: [sh.dec(j)])), ("one flag per block", bl[0].fields["n"] == sh.n)]
    def hh(E, fr, o, f):
        if f == "has_collatz_decrease": o.fields[f] = E.bool("collatz"); return True
        return False
    return Loop("decreasing", inv, pre=flags, frame=lambda E, fr: [(b, "get") for b in blists(E, fr)] + [(fr.locals["self"], "has_collatz_decrease")], havoc_heap=hh, match=lambda E, s, fr: isinstance(s, ast.For) and any(isinstance(v, (SymSeq, Obj)) and k == "is_decreasing" for k, v in fr.locals["self"].fields.items()))
class LinearInit(Contract):
    """minima are those of the functions; called infinite only if no function falls; the general rule it falls back on is this rule"""
    module = PS; qualname = "Linear_Rule.__init__"; params = ["self", "var_list", "min_list", "func_list", "result_tape", "num_steps", "num_loops", "rule_num", "states_last_seen"]; exts = {("new", "General_Rule"): made("General_Rule")}
    def args(self, E):
        sh = shape(E); sh.fmin = E.func("fmin", I, I); sh.dec = E.func("decreasing", I, B); return NS(self=E.new(PS, "Linear_Rule"), var_list=Obj(E, "VList", {}), min_list=Obj(E, "MList", {"get": lambda i: sh.mn(i)}), func_list=Obj(E, "FnList", {}), result_tape=tape(E, sh), num_steps=Opaque("steps"), num_loops=E.int("loops"), rule_num=E.int("num"), states_last_seen=Opaque("seen"))
    def modifies(self, E, a): return [(a.self, None), (a.min_list, "get")]
    def loops(self):
        def inv(E, env):
            sh = E.ghost["sh"]; k = zi(env.extra["k"]); m = env.fr.locals["min_list"]; return [("minima so far", Forall([I], lambda j: m.fields["get"](j) == Ite(And(j >= 0, j < k, sh.V(j)), sh.fmin(j), sh.mn(j)), patterns=lambda j: [m.fields["get"](j)]))]
        return [dec_loop(), Loop("minima", inv, frame=lambda E, fr: [(fr.locals["min_list"], "get")], match=lambda E, s, fr: isinstance(s, ast.For))]
    def post(self, E, old, a, r):
        sh = E.ghost["sh"]; S = a.self.fields; mk = E.ghost.get("made")
        if mk is None or len(mk[1]) != 7: return [("falls back on a general rule", False)]
        v, m, t, s, l, num, seen = mk[1]; ml = S.get("min_list"); bl = S.get("is_decreasing")
        if not (isinstance(ml, Obj) and ml.cls == "MList" and isinstance(bl, Obj)): return [("minima and flags", False)]
        return [("the functions' minima", Forall([I], lambda j: Implies(And(j >= 0, j < sh.n), ml.fields["get"](j) == Ite(sh.V(j), sh.fmin(j), sh.mn(j))))), ("infinite only if nothing falls", Implies(zb(E.truth(S["infinite"])), Forall([I], lambda j: Implies(And(j >= 0, j < sh.n, sh.V(j)), Not(sh.dec(j)))).as_z3(E))), ("finite only if something falls", Implies(Not(zb(E.truth(S["infinite"]))), Not(Forall([I], lambda j: Implies(And(j >= 0, j < sh.n, sh.V(j)), Not(sh.dec(j)))).as_z3(E)))),
                ("the general rule is this rule", And(v is a.var_list, m is ml, t is a.result_tape, s is a.num_steps, E.truth_eq(l, a.num_loops), seen is a.states_last_seen)), ("keeps what it is given", And(S["var_list"] is a.var_list, S["func_list"] is a.func_list, S["num_steps"] is a.num_steps, E.truth_eq(S["num_loops"], a.num_loops), S["states_last_seen"] is a.states_last_seen, E.truth_eq(S["left_size"], sh.n0))), ("which counts fall", Forall([I], lambda j: Implies(And(j >= 0, j < sh.n), bl.fields["get"](j) == And(sh.V(j), sh.dec(j)))))]
def cl_attr(E, o, name):
    if name != "append": return MISSING
    def app(E, v):
        n, old, no = o.fields["n"], o.fields["get"], o.fields["none"]; E.note_write("field", o, "n"); E.note_write("field", o, "get"); E.note_write("field", o, "none"); o.fields["n"] = n + 1; o.fields["none"] = lambda i: Ite(i == n, T if v is None else FL, no(i)); o.fields["get"] = lambda i: Ite(i == n, z3.IntVal(0) if v is None else zi(v), old(i))
    return app
EXTS.update({("Terms", "len"): lambda E, o: E.ghost["sh"].nt(o.fields["i"]), ("Terms", "getitem"): t_get, ("ETerm", "attr"): et_attr, ("Exponent", "attr"): ex_attr, ("CList", "attr"): cl_attr, ("CList", "havoc"): f_havoc, ("CList", "len"): lambda E, o: o.fields["n"]})
def exact2(E, F, k, mn): sh = E.ghost["sh"]; return Forall([I], lambda j: Implies(And(j >= 0, j < k), And(F["none"](j) == Not(sh.V(j)), Implies(sh.V(j), And(F["own"](j), F["val"](j) == sh.res(j), F["mn"](j) >= mn(j), Implies(And(Not(F["dec"](j)), sh.expr(j)), Or(sh.C(j) != 1, sh.K(j) >= 0)))))), patterns=lambda j: [F["none"](j)])
class ExpGen(LinearGen):
    """the same, with functions x -> (a b^(u x + v) + c)/d"""
    qualname = "Exponential_Rule.try_gen"; exts = {("new", "Exponential_Rule"): made("Exponential_Rule")}
    def loops(self):
        def pre(E, env):
            for n, v in list(env.fr.locals.items()):
                if isinstance(v, PyList) and not v.items: env.fr.locals[n] = Obj(E, "CList", {"n": z3.IntVal(0), "none": lambda i: T, "get": lambda i: z3.IntVal(0)}) if n == (E.rename or {}).get("const_list", "const_list") else flist(E)
        def consts(E, C, k): sh = E.ghost["sh"]; return Forall([I], lambda j: Implies(And(j >= 0, j < k), And(C["none"](j) == sh.V(j), Implies(Not(sh.V(j)), C["get"](j) == sh.mn(j)))), patterns=lambda j: [C["none"](j)])
        self.consts = consts
        def inv(E, env):
            k = zi(env.extra["k"]); F, C = env.func_list, env.const_list
            if not (isinstance(F, Obj) and F.cls == "FList" and isinstance(C, Obj) and C.cls == "CList"): raise Unsupported("functions")
            return [("one function per block", And(F.fields["n"] == k, C.fields["n"] == k)), ("each exactly the result", exact2(E, F.fields, k, E.ghost["sh"].mn)), ("constant counts", consts(E, C.fields, k))]
        keep = lambda E, fr, n: fr.locals[n] if isinstance(fr.locals[n], Obj) and fr.locals[n].cls in ("FList", "CList") else MISSING
        return [Loop("functions", inv, pre=pre, havoc_local=keep, frame=lambda E, fr: [(v, f) for v in fr.locals.values() if isinstance(v, Obj) and v.cls in ("FList", "CList") for f in v.fields])]
    def post(self, E, old, a, r):
        mk = E.ghost.get("made"); sh = E.ghost["sh"]
        if r is False or r is None: return []
        if mk is None or not (isinstance(r, Obj) and r.cls == "Rule") or len(mk[1]) != 7: return [("a rule of these functions", False)]
        F, C, t, s, l, num, seen = mk[1]
        return [("the result, steps and last visits given", And(t is a.result_tape, s is a.num_steps, E.truth_eq(l, a.num_loops), seen is a.states_last_seen)), ("one function per block", And(F.fields["n"] == sh.n, C.fields["n"] == sh.n)), ("each exactly the result", exact2(E, F.fields, sh.n, sh.mn)), ("constant counts", self.consts(E, C.fields, sh.n))]
class ExpInit(Contract):
    """variables and minima are those of the functions; called infinite only if no function falls; the general rule it falls back on is this rule"""
    module = PS; qualname = "Exponential_Rule.__init__"; params = ["self", "func_list", "const_list", "result_tape", "num_steps", "num_loops", "rule_num", "states_last_seen"]; exts = {("new", "General_Rule"): made("General_Rule")}
    def args(self, E):
        sh = shape(E); sh.fmin = E.func("fmin", I, I); sh.dec = E.func("decreasing", I, B); return NS(self=E.new(PS, "Exponential_Rule"), func_list=Obj(E, "FnList", {}), const_list=Opaque("constants"), result_tape=tape(E, sh), num_steps=Opaque("steps"), num_loops=E.int("loops"), rule_num=E.int("num"), states_last_seen=Opaque("seen"))
    def modifies(self, E, a): return [(a.self, None)]
    def loops(self): return [dec_loop()]
    def post(self, E, old, a, r):
        sh = E.ghost["sh"]; S = a.self.fields; mk = E.ghost.get("made")
        if mk is None or len(mk[1]) != 7: return [("falls back on a general rule", False)]
        v, m, t, s, l, num, seen = mk[1]; ml, vl = S.get("min_list"), S.get("var_list"); bl = S.get("is_decreasing"); isl = lambda x, c: isinstance(x, Obj) and x.cls == c
        if not (isl(ml, "MList") and isl(bl, "BList") and isl(v, "VList") and isl(m, "MList") and isl(vl, "VList")): return [("variables, minima and flags", False)]
        nodec = Forall([I], lambda j: Implies(And(j >= 0, j < sh.n, sh.V(j)), Not(sh.dec(j)))).as_z3(E); mins = lambda q: Forall([I], lambda j: Implies(And(j >= 0, j < sh.n, sh.V(j)), q.fields["get"](j) == sh.fmin(j)))
        return [("the functions' minima", mins(ml)), ("infinite only if nothing falls", Implies(zb(E.truth(S["infinite"])), nodec)), ("finite only if something falls", Implies(Not(zb(E.truth(S["infinite"]))), Not(nodec))), ("the general rule is this rule", And(t is a.result_tape, s is a.num_steps, E.truth_eq(l, a.num_loops), seen is a.states_last_seen)), ("with these minima", mins(m)),
                ("keeps what it is given", And(S["func_list"] is a.func_list, S["const_list"] is a.const_list, S["num_steps"] is a.num_steps, E.truth_eq(S["num_loops"], a.num_loops), S["states_last_seen"] is a.states_last_seen, E.truth_eq(S["left_size"], sh.n0))), ("which counts fall", Forall([I], lambda j: Implies(And(j >= 0, j < sh.n), bl.fields["get"](j) == And(sh.V(j), sh.dec(j)))))]
def vl_iter(E, o): return E.ghost["sh"].n, lambda k: vl_get(E, o, k)
def c_ge(E, a, b):
    """always_ge, verified for C14: the result is at least the variable, for every value of it"""
    sh = E.ghost["sh"]
    if not (isinstance(a, Obj) and a.cls == "Res" and isinstance(b, Obj) and b.cls == "VExpr" and "of" in b.fields): return E.bool("ge")
    i, v = a.fields["i"], b.fields["of"].fields["i"]; r = E.bool("ge"); E.assume(Implies(And(r, i == v), sh.ge(i))); return r
def c_frozenset(E, args, kw): return Obj(E, "VarsOf", {})
def fs_attr(E, o, name): return (lambda E, *a: Obj(E, "VarsOf", {})) if name == "union" else MISSING
def ml_iter(E, o): return E.ghost["sh"].n, lambda k: o.fields["get"](zi(k))
EXTS.update({("VList", "iter"): vl_iter, ("MList", "iter"): ml_iter})
class GenInit(Contract):
    """keeps what it is given; the result is the tape's counts; called infinite only if no count can fall"""
    module = PS; qualname = "General_Rule.__init__"; params = ["self", "var_list", "min_list", "result_tape", "num_steps", "num_loops", "rule_num", "states_last_seen"]
    exts = {("builtin", "frozenset"): c_frozenset, ("VarsOf", "attr"): fs_attr, ("star", "*"): lambda E, v: [v] if isinstance(v, SymSeq) else MISSING, ("binop", "VarsOf"): lambda E, op, a, b: Obj(E, "VarsOf", {}), ("VarsOf", "truth"): lambda E, o: E.bool("undefined variables"), ("builtin", "print"): lambda E, args, kw: None}
    def args(self, E):
        sh = shape(E); sh.ge = E.func("never_falls", I, B); return NS(self=E.new(PS, "General_Rule"), var_list=Obj(E, "VList", {}), min_list=Obj(E, "MList", {"get": lambda i: sh.mn(i)}), result_tape=tape(E, sh), num_steps=Opaque("steps"), num_loops=E.int("loops"), rule_num=E.int("num"), states_last_seen=Opaque("seen"))
    def modifies(self, E, a): return [(a.self, None)]
    def raises(self, E, old, a, exc): return [("only the refusal of unknown variables", exc.kind == "AssertionError")]
    def loops(self):
        def inv(E, env):
            sh = E.ghost["sh"]; k = zi(env.extra["k"]); return [("no count so far can fall", Implies(zb(E.truth(env.fr.locals["self"].fields["infinite"])), Forall([I], lambda j: Implies(And(j >= 0, j < k, sh.V(j)), sh.ge(j)), patterns=lambda j: [sh.ge(j)]).as_z3(E)))]
        return [Loop("infinite", inv, frame=lambda E, fr: [(fr.locals["self"], "infinite")], havoc_heap=lambda E, fr, o, f: o.fields.__setitem__(f, E.bool("infinite")) or True)]
    def post(self, E, old, a, r):
        sh = E.ghost["sh"]; S = a.self.fields; rl, bl = S.get("result_list"), S.get("block_list"); j = E.int("j"); E.assume([j >= 0, j < sh.n])
        if not (isinstance(rl, SymSeq) and isinstance(bl, SymSeq)): return [("the counts of the result", False)]
        x, y = rl.get(j), bl.get(j); isl = lambda x, c: isinstance(x, Obj) and x.cls == c
        return [("infinite only if no count can fall", Implies(zb(E.truth(S["infinite"])), Forall([I], lambda j: Implies(And(j >= 0, j < sh.n, sh.V(j)), sh.ge(j))).as_z3(E))), ("the counts of the result", And(zi(rl.length) == sh.n, isl(x, "Res") and x.fields["i"] == j)), ("and its symbols", And(zi(bl.length) == sh.n, isl(y, "Sym") and y.fields["i"] == j)),
                ("keeps what it is given", And(S["var_list"] is a.var_list, S["min_list"] is a.min_list, S["result_tape"] is a.result_tape, S["num_steps"] is a.num_steps, E.truth_eq(S["num_loops"], a.num_loops), S["states_last_seen"] is a.states_last_seen, E.truth_eq(S["left_size"], sh.n0)))]
class DiffInit(Contract):
    """keeps what it is given"""
    module = PS; qualname = "Diff_Rule.__init__"; params = ["self", "initial_tape", "diff_tape", "initial_state", "num_steps", "num_loops", "rule_num", "is_meta_rule", "states_last_seen"]; kept = [p for p in params if p not in ("self", "rule_num")]
    def args(self, E): sh = shape(E); E.ghost["diff"] = True; return NS(self=E.new(PS, self.qualname.split(".")[0]), **{p: tape(E, sh) if p.endswith("_tape") else E.int(p) if p in ("num_loops", "rule_num", "left_dist", "right_dist") else E.bool(p) if p == "is_meta_rule" else Opaque(p) for p in self.params[1:]})
    def modifies(self, E, a): return [(a.self, None)]
    def loops(self): return [Loop("collatz", lambda E, env: [], frame=lambda E, fr: [(fr.locals["self"], "has_collatz_decrease")], havoc_heap=lambda E, fr, o, f: o.fields.__setitem__(f, E.bool("collatz")) or True)]
    def post(self, E, old, a, r): S = a.self.fields; return [("keeps " + p, p in S and (S[p] is getattr(a, p) or E.truth_eq(S[p], getattr(a, p)) if is_z(getattr(a, p)) else S[p] is getattr(a, p))) for p in self.kept]
class LimitedInit(DiffInit):
    qualname = "Limited_Diff_Rule.__init__"; params = ["self", "initial_tape", "left_dist", "right_dist", "diff_tape", "initial_state", "num_steps", "num_loops", "rule_num", "states_last_seen"]; kept = [p for p in params if p not in ("self", "rule_num")]
# real numbers (num / den) with logarithms in one base, den > 0; floats are taken to be exact.  LG(y) is the logarithm of y
def real(E, num, den=z3.IntVal(1)): return Obj(E, "LogReal", {"num": num, "den": den})
def as_num(E, x):
    if isinstance(x, Obj) and x.cls == "LogReal": return x.fields["num"], x.fields["den"]
    if isinstance(x, Obj) or isinstance(x, float): raise Unsupported("real number")
    return z3.ToReal(zi(x)), z3.IntVal(1)
def c_log(E, x, b=None):
    g = E.ghost
    if b is None or not z3.eq(z3.simplify(zi(b)), z3.simplify(g["b"])): raise Unsupported("another base")
    E.prove("the logarithm of a positive number", zi(x) > 0); g.setdefault("logs", []).append(zi(x)); return real(E, g["LG"](zi(x)))
def lr_op(E, op, a, b):
    (p, q), (r, s) = as_num(E, a), as_num(E, b); one = lambda z: z3.is_int_value(z) and z.as_long() == 1
    if isinstance(op, (ast.Add, ast.Sub)) and one(q) and one(s): return real(E, p + r if isinstance(op, ast.Add) else p - r)
    if isinstance(op, ast.Div) and one(q) and not isinstance(b, Obj): E.prove("divides by a positive number", zi(b) > 0); return real(E, p, zi(b))
    raise Unsupported("real number")
def lr_cmp(E, op, a, b):
    (p, q), (r, s) = as_num(E, a), as_num(E, b); one = lambda z: z3.is_int_value(z) and z.as_long() == 1
    if one(q) and not one(s) and isinstance(a, Obj) is False: p = E.ghost["prod"](zi(a), s)          # a * s < r, for a < r / s
    elif not (one(q) and one(s)): raise Unsupported("real number")
    return {ast.Lt: p < r, ast.LtE: p <= r, ast.Gt: p > r, ast.GtE: p >= r}[type(op)]
class PowMin(Contract):
    """a least argument, no lower than the one given, at which the function does not fall: a b^(u x + v) >= d x - c"""
    module = RF; qualname = "Pow_Func.compute_min"; params = ["self", "min"]; exts = {("external", "math.log"): c_log, ("external", "math.ceil"): lambda E, x: E.int("ceil"), ("binop", "LogReal"): lr_op, ("compare", "LogReal"): lr_cmp}
    def args(self, E):
        g = E.ghost; b, a, c, d, u, v = [E.int(k) for k in "bacduv"]; g.update(b=b, a=a, c=c, d=d, u=u, v=v, LG=E.func("log", I, z3.RealSort()), pw=E.func("pow", I, I)); E.assume([b > 1, a > 0, u > 0, d > 0])
        up = E.func("times_u", I, I); g["up"] = up
        def prod(x, s):
            if not z3.eq(z3.simplify(s), u): raise Unsupported("real number")
            return z3.ToReal(up(x))
        g["prod"] = prod
        return NS(self=E.new(RF, "Pow_Func", var=Opaque("x"), base=b, coef_base=a, const_base=c, denom=d, coef_exp=u, const_exp=v), min=E.int("min"))
    def loops(self):
        def inv(E, env): return [("never lower than given", zi(env.fr.locals["min"]) >= E.ghost["min0"])]
        def pre(E, env): E.ghost.setdefault("min0", zi(env.fr.locals["min"]))
        return [Loop("search", inv, pre=pre)]
    def post(self, E, old, a, r):
        g = E.ghost; m = zi(r); dx = g["d"] * m - g["c"]
        # log(a) + u m + v >= log(d m - c) means a b^(u m + v) >= d m - c, which is a positive integer
        return [("never lower than given", m >= zi(a.min)), ("does not fall there", Or(dx <= 1, g["LG"](g["a"]) + z3.ToReal(g["v"]) + z3.ToReal(g["up"](m)) >= g["LG"](dx)))]
    def apply_call(self, E, f, argv): return c_cmin(E, *argv)
class StripInfo(Contract):
    """the block's symbol, and 1 where it occurs once"""
    module = PS; qualname = "stripped_info"; params = ["block"]
    def args(self, E): return NS(block=E.new("Macro.Tape", "Repeated_Symbol", symbol=Opaque("symbol"), num=(E.int("num") if E.case("count", "endless") == "count" else INF), id=None))
    def post(self, E, old, a, r):
        s, n = a.block.fields["symbol"], a.block.fields["num"]; one = FL if isinstance(n, float) else n == 1
        if isinstance(r, tuple): return [("the symbol, once", And(one, len(r) == 2 and r[0] is s and r[1] == 1))]
        return [("the symbol, not once", And(Not(one), r is s))]
    def apply_call(self, E, f, argv):
        b, = argv
        if not (isinstance(b, Obj) and b.cls == "SBlk"): raise Unsupported("block")
        return Obj(E, "Info", dict(b.fields))
class StripConfig(Contract):
    """state, direction, and what is kept of every block but the endless one at the bottom, half by half and in order"""
    module = PS; qualname = "strip_config"; params = ["state", "dir", "tape"]
    def args(self, E):
        g = E.ghost; g["n"] = [E.int("n"), E.int("n")]; E.assume([g["n"][0] >= 1, g["n"][1] >= 1]); h = lambda k: SymSeq(E, lambda i: Obj(E, "SBlk", {"half": k, "i": zi(i)}), g["n"][k], "list")
        return NS(state=Opaque("state"), dir=E.int("dir"), tape=PyList(E, [h(0), h(1)]))
    def post(self, E, old, a, r):
        g = E.ghost; n = g["n"]
        if not (isinstance(r, tuple) and len(r) == 4): return [("four parts", False)]
        out = [("state and direction", And(r[0] is a.state, E.truth_eq(r[1], a.dir)))]
        for k in (0, 1):
            s = r[2 + k]; i = E.int("i"); E.assume([i >= 0])
            if not isinstance(s, SymSeq): return [("the blocks of each half", False)]
            x = s.get(i); out += [("as many as blocks above the bottom", zi(s.length) == n[k] - 1), ("each of its own block", isinstance(x, Obj) and x.cls == "Info" and And(x.fields["half"] == k, x.fields["i"] == i + 1))]
        return out
STUBS.append(Stub(AE, "always_ge", "verified for C14", c_ge))
CONTRACTS = STUBS + [LinearGen(), LinearInit(), ExpGen(), ExpInit(), GenInit(), PowMin(), DiffInit(), LimitedInit(), StripInfo(), StripConfig()]
class PowGrows(Lemma):
    """F = (A + c)/d with A growing and every value an integer: where F(x) >= x, also F(x+1) >= x+1"""
    name = "an exponential count that does not fall never falls"
    def obligations(self, E):
        A, A1, c, d, F, F1, x = [E.int(k) for k in ("A", "A1", "c", "d", "F", "F1", "x")]; E.assume([d > 0, A1 > A]); E.assume(d * F == A + c); E.assume(d * F1 == A1 + c)
        E.prove("the next value is larger", F1 > F); E.assume(F1 > F); E.prove("and does not fall", Implies(F >= x, F1 >= x + 1)); E.prove("at the least argument", Implies(A >= d * x - c, F >= x))
LEMMAS = ["PowGrows"]
