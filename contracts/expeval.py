"""Contracts of the evaluation of tower integers (C13): whenever a term or a number is evaluated (height 0) the value is exact, and so are
sign and order of evaluated numbers.  At height 1 and above the magnitude is a floating-point estimate ("Fl"), of which nothing is assumed."""
import ast, math, z3
from pyvc.engine import *
from pyvc.contract import *
from contracts.mathc import POW
M = "Exp_Int"; I, B = z3.IntSort(), z3.BoolSort(); INF = math.inf; T, FL = z3.BoolVal(True), z3.BoolVal(False)
def sgn(v): return z3.If(v > 0, 1, z3.If(v < 0, -1, 0))
def absz(v): return z3.If(v >= 0, v, -v)
def fl(E): return Obj(E, "Fl", {})
def fl_cmp(E, op, a, b):
    if isinstance(a, Obj) and isinstance(b, int) and b == 0 and isinstance(op, ast.GtE): return True          # estimates are not negative (asserted by the code)
    return E.bool("estimate")
def tower(E, val):
    """the magnitude of an evaluated number, or an estimate"""
    if E.case("evaluated", "estimated") == "evaluated": return (0, absz(val)), True
    h = E.int("height"); E.assume(h >= 1); return (h, fl(E)), False
def number(E, cls, val, small=None):
    t, sm = tower(E, val) if small is None else ((0, absz(val)), True) if small else (lambda h: (E.assume(h >= 1), ((h, fl(E)), False))[1])(E.int("height"))
    x = E.new(M, cls, tower_value=t, sign=sgn(val) if sm else E.int("sign"), is_const=True, formula_str=Opaque("s"), depth=E.int("depth")); x.meta.update(val=val, small=sm); return x
class Stub(Contract):
    assumed = True
    def __init__(self, module, qualname, why, fn): self.module, self.qualname, self.why, self.fn = module, qualname, why, fn; self.params = []
    def apply_call(self, E, f, argv): return self.fn(E, *argv)
def c_power(E, op, a, b): return MISSING
class TryEval(Contract):
    """the exact value or None"""
    module = M; qualname = "try_eval"; params = ["x"]
    def args(self, E):
        k = E.case("tower", "term", "int", "other"); v = E.int("v"); E.ghost["v"] = v; return NS(x=v if k == "int" else Obj(E, "Expr", {}) if k == "other" else number(E, "ExpInt" if k == "tower" else "ExpTerm", v))
    def post(self, E, old, a, r): return [("the exact value or none", True if r is None else E.truth_eq(r, E.ghost["v"]))]
    def apply_call(self, E, f, argv):
        x, = argv
        if isinstance(x, Obj) and x.cls == "TermAt": return Obj(E, "ValAt", dict(x.fields))
        if isinstance(x, Obj) and "val" in x.meta: return x.meta["val"] if x.meta["small"] else None
        if isinstance(x, int) or is_zint(x): return x
        if isinstance(x, Obj): return None
        raise Unsupported("try_eval")
class TrySimplify(Contract):
    """the exact value or the number itself"""
    module = M; qualname = "try_simplify"; params = ["x"]
    args = TryEval.args
    def post(self, E, old, a, r): return [("the exact value or the number itself", True if r is a.x else E.truth_eq(r, E.ghost["v"]))]
class TermEval(Contract):
    """an evaluated term is exact"""
    module = M; qualname = "ExpTerm.eval"; params = ["self"]
    def args(self, E):
        b, c, e = E.int("b"), E.int("c"), E.int("e"); E.assume([b >= 2, c != 0, e >= 1]); E.ghost.update(b=b, c=c, e=e)
        return NS(self=E.new(M, "ExpTerm", base=b, coef=c, exponent=e if E.case("int", "tower") == "int" else number(E, "ExpInt", e), sign=sgn(c), formula_str=Opaque("s"), depth=E.int("depth")))
    def modifies(self, E, a): return [(a.self, f) for f in ("is_const", "tower_value")]
    def post(self, E, old, a, r):
        g = E.ghost; t = a.self.fields["tower_value"]; h, top = t; v = g["c"] * POW(g["b"], g["e"])
        if isinstance(top, Obj): return [("an estimate is marked as such", zi(h) >= 1)]
        return [("height", zi(h) >= 0), ("an evaluated term is exact", Implies(zi(h) == 0, zi(top) == absz(v)))]
# the sum: terms with values v(i), evaluated or not
def ts_comp(E, o, e):
    g = e.generators[0]; i = E.int("i"); fr = E.frames[-1]; t = Obj(E, "TermAt", {"i": i}); nf = Frame(fr.func, dict(fr.locals), fr.module, fr.closure); E.frames.append(nf)
    try: E.assign(g.target, t); c = And(*[zb(E.truth(E.eval(x))) for x in g.ifs]); v = E.eval(e.elt)
    finally: E.frames.pop()
    return Obj(E, "TermMap", {"i": i, "cond": c, "elt": v})
def at(E, m, k, what):
    return z3.substitute(what, (m.fields["i"], zi(k)))
def ta_attr(E, o, name):
    g = E.ghost; i = o.fields["i"]
    if name == "is_const": return True
    if name == "sign": return sgn(g["V"](i))
    if name == "tower_value": return Obj(E, "TowerAt", dict(o.fields))
    return MISSING
def c_all(E, args, kw):
    m, = args; g = E.ghost
    if not (isinstance(m, Obj) and m.cls == "TermMap"): return MISSING
    x = m.fields["elt"]
    if x is True: return True
    if not (isinstance(x, Obj) and x.cls == "ValAt"): raise Unsupported("all")
    b, w = E.bool("all"), E.int("w"); g["w"] = w; sm = lambda i: And(g["H"](i) == 0, g["V"](i) != 0)
    E.assume(Implies(Not(b), And(w >= 0, w < g["n"], Not(sm(w))))); E.assume(Implies(b, Forall([I], lambda i: Implies(And(i >= 0, i < g["n"]), sm(i)), patterns=lambda i: [g["H"](i)]).as_z3(E))); r = E.branch(b); g["all"] = r; return r
def c_sum(E, args, kw):
    m = args[0]; g = E.ghost
    if not (isinstance(m, Obj) and m.cls == "TermMap"): return MISSING
    if isinstance(m.fields["elt"], Obj) and m.fields["elt"].cls == "ValAt" and z3.is_true(z3.simplify(zb(m.fields["cond"]))): E.prove("sums evaluated terms only", g.get("all") is True); return g["S"]
    raise Unsupported("sum")
def c_max(E, args, kw):
    g = E.ghost
    if len(args) == 1 and isinstance(args[0], Obj) and args[0].cls == "TermMap":
        m = args[0]; x = m.fields["elt"]
        if not (isinstance(x, Obj) and x.cls == "TowerAt") or set(kw) != {"default"}: raise Unsupported("max")
        h = E.int("height"); E.assume(h >= 0); c = m.fields["cond"]; E.assume(Forall([I], lambda i: Implies(And(i >= 0, i < g["n"], at(E, m, i, zb(c))), h >= g["H"](i)), patterns=lambda i: [g["H"](i)])); return (h, fl(E))
    if len(args) == 2 and all(isinstance(x, tuple) and len(x) == 2 for x in args): a, b = args; return (z3.If(zi(a[0]) >= zi(b[0]), zi(a[0]), zi(b[0])), fl(E))
    return MISSING
class Eval(Contract):
    """an evaluated number is exact, and so is its sign"""
    module = M; qualname = "ExpInt.eval"; params = ["self"]
    def args(self, E):
        g = E.ghost; g.update(n=E.int("n"), V=E.func("value", I, I), H=E.func("height", I, I), S=E.int("sum"), v=E.int("v")); c, d = E.int("const"), E.int("denom"); E.assume([g["n"] >= 1, d >= 1, d * g["v"] == g["S"] + c])
        E.assume(Forall([I], lambda i: Implies(And(i >= 0, i < g["n"]), And(g["H"](i) >= 0, g["V"](i) != 0)), patterns=lambda i: [g["H"](i)]))
        return NS(self=E.new(M, "ExpInt", terms=Obj(E, "TermSeq", {}), const=c, denom=d, formula_str=Opaque("s"), depth=E.int("depth")))
    def modifies(self, E, a): return [(a.self, f) for f in ("is_const", "tower_value", "sign")]
    def raises(self, E, old, a, ex): return [("only refuses numbers it cannot evaluate", And(ex.kind == "ExpIntException", E.ghost.get("all") is False))]
    def post(self, E, old, a, r):
        g = E.ghost; S = a.self.fields; h, top = S["tower_value"]; v = g["v"]
        if isinstance(top, Obj): return [("an estimate is marked as such", zi(h) >= 1)]
        return [("an evaluated number is exact", And(zi(h) == 0, zi(top) == absz(v))), ("its sign", zi(S["sign"]) == sgn(v))]
class Ge(Contract):
    """the order of evaluated numbers"""
    module = M; qualname = "ExpInt.__ge__"; params = ["self", "other"]; strict = False
    def args(self, E):
        v, w = E.int("v"), E.int("w"); E.ghost.update(v=v, w=w); k = E.case("int", "tower", "inf", "-inf"); return NS(self=number(E, "ExpInt", v, True), other=w if k == "int" else number(E, "ExpInt", w, True) if k == "tower" else INF if k == "inf" else -INF)
    def rel(self, v, w): return v > w if self.strict else v >= w
    def post(self, E, old, a, r):
        if isinstance(a.other, float): return [("infinite", E.truth_eq(r, a.other < 0))]
        return [("agrees with the integers", zb(E.truth(r)) == self.rel(E.ghost["v"], E.ghost["w"]))]
    def apply_call(self, E, f, argv):
        x, y = argv; v = x.meta["val"]
        if isinstance(y, float): return y < 0
        return self.rel(v, y.meta["val"] if isinstance(y, Obj) else zi(y))
class Gt(Ge): qualname = "ExpInt.__gt__"; strict = True
class Lt(Ge):
    qualname = "ExpInt.__lt__"
    def rel(self, v, w): return v < w
    def post(self, E, old, a, r):
        if isinstance(a.other, float): return [("infinite", E.truth_eq(r, a.other > 0))]
        return [("agrees with the integers", zb(E.truth(r)) == self.rel(E.ghost["v"], E.ghost["w"]))]
class Le(Lt):
    qualname = "ExpInt.__le__"
    def rel(self, v, w): return v <= w
def c_neg(E, x): return number(E, "ExpInt", -x.meta["val"], x.meta["small"])
class TowerValue(Contract):
    """exact for integers"""
    module = M; qualname = "tower_value"; params = ["x"]
    def args(self, E): v = E.int("v"); E.ghost["v"] = v; return NS(x=v if E.case("int", "tower") == "int" else number(E, "ExpInt", v))
    def post(self, E, old, a, r):
        if not (isinstance(r, tuple) and len(r) == 2): return [("height and top", False)]
        if isinstance(r[1], Obj): return [("the number's own", isinstance(a.x, Obj) and r is a.x.fields["tower_value"])]
        return [("exact", And(zi(r[0]) == 0, zi(r[1]) == absz(E.ghost["v"])))]
    def apply_call(self, E, f, argv):
        x, = argv; return x.fields["tower_value"] if isinstance(x, Obj) else (0, absz(zi(x)))
class Sign(Contract):
    module = M; qualname = "sign"; params = ["x"]
    def args(self, E): v = E.int("v"); E.ghost["v"] = v; return NS(x=v if E.case("int", "tower") == "int" else number(E, "ExpInt", v, True))
    def post(self, E, old, a, r): return [("the sign", zi(r) == sgn(E.ghost["v"]))]
    def apply_call(self, E, f, argv): x, = argv; return x.fields["sign"] if isinstance(x, Obj) else sgn(zi(x))
class StructEq(Contract):
    """equal structure means equal value"""
    module = M; qualname = "struct_eq"; params = ["a", "b"]; exts = {("builtin", "all"): lambda E, args, kw: all_eq(E, args[0])}
    def one(self, E, k, tag):
        g = E.ghost; v = E.int("v" + tag)
        if k == "int": return v, v
        if k == "other": return Obj(E, "Expr", {}), v
        if k == "term": b, c, e = E.int("base"), E.int("coef"), E.int("e"); x = Obj(E, "Exponent", {}); x.meta["val"] = e; return E.new(M, "ExpTerm", base=b, coef=c, exponent=x), c * POW(b, e)
        n, V, F, c, d = E.int("n"), E.func("V" + tag, I, I), E.func("F" + tag, I, I), E.int("const"), E.int("denom"); E.assume([n >= 0, d >= 1, F(0) == 0, d * v == F(n) + c]); g[tag] = (n, V, F, c, d)
        def get(i): t = Obj(E, "TermAt", {"i": zi(i)}); t.meta["val"] = V(zi(i)); return t
        return E.new(M, "ExpInt", terms=SymSeq(E, get, n, "list"), const=c, denom=d), v
    def args(self, E):
        k = E.case("int", "term", "tower", "other"); l = E.case("int", "term", "tower", "other"); a, x = self.one(E, k, "a"); b, y = self.one(E, l, "b"); E.ghost.update(x=x, y=y); return NS(a=a, b=b)
    def post(self, E, old, a, r):
        g = E.ghost
        if r is False: return []
        if "a" in g and "b" in g:
            (n, V, F, c, d), (m, W, G, c2, d2) = g["a"], g["b"]
            if g.get("alleq") is not None: E.induct("equal terms have equal sums", n, lambda j: Implies(And(g["alleq"], n == m, j <= n), F(j) == G(j)), unfold=lambda j: And(F(j + 1) == F(j) + V(j), G(j + 1) == G(j) + W(j)))
            t = zb(E.truth(r)); E.prove("the same parts", Implies(t, And(n == m, d == d2, c == c2, F(n) == G(m)))); E.assume(Implies(t, And(n == m, d == d2, c == c2, F(n) == G(m)))); E.assume(Implies(And(t, g["x"] != g["y"]), d * g["x"] != d * g["y"]))
        return [("equal structure, equal value", Implies(zb(E.truth(r)), g["x"] == g["y"]))]
    def apply_call(self, E, f, argv):
        a, b = argv; r = E.bool("same")
        if all(isinstance(x, Obj) and "val" in x.meta for x in argv): E.assume(Implies(r, a.meta["val"] == b.meta["val"]))
        return r
def all_eq(E, s):
    g = E.ghost
    if not (isinstance(s, SymSeq) and "a" in g and "b" in g): raise Unsupported("all")
    (n, V, *_), (m, W, *_) = g["a"], g["b"]; k = E.int("k")
    r = zb(E.truth(s.get(k))); E.prove("each pair of terms", Implies(And(r, k >= 0, k < n, k < m), V(k) == W(k))); E.prove("all pairs of terms", Implies(And(n == m), zi(s.length) == n)); b = E.bool("all"); g["alleq"] = b
    E.assume(Implies(And(b, n == m), Forall([I], lambda i: Implies(And(i >= 0, i < n), V(i) == W(i)), patterns=lambda i: [V(i)]).as_z3(E))); return b
EXTS = {("int", "pow"): lambda E, x, y: POW(x, y), ("compare", "Fl"): fl_cmp, ("Fl", "eq"): lambda E, a, b: E.bool("estimate"), ("binop", "Fl"): lambda E, op, a, b: fl(E), ("external", "math.log10"): lambda E, x: fl(E), ("TermSeq", "comp"): ts_comp, ("TermAt", "attr"): ta_attr, ("builtin", "all"): c_all, ("builtin", "sum"): c_sum, ("builtin", "max"): c_max, ("builtin", "abs"): lambda E, args, kw: fl(E) if isinstance(args[0], Obj) and args[0].cls == "Fl" else MISSING,
        ("Fl", "__neg__"): lambda E, x: fl(E), ("Fl", "less"): lambda E, a, b: E.bool("estimate")}
STUBS = [Stub("Algebraic_Expression", "is_const", "verified for C14", lambda E, x: True), Stub("Math", "prec_mult", "floating-point estimate", lambda E, *a: fl(E)), Stub("Math", "prec_add", "floating-point estimate", lambda E, *a: fl(E)), Stub(M, "ExpInt.__neg__", "verified: expint (the negative is evaluated when the number is: same exponents)", c_neg)]
CONTRACTS = STUBS + [TryEval(), TrySimplify(), TermEval(), Eval(), Ge(), Gt(), Lt(), Le(), TowerValue(), Sign(), StructEq()]
LEMMAS = []
