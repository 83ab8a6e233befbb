"""Contracts of Code/Exp_Int.py.

Denotations: an exponent denotes a non-negative integer (it is itself an int,
tower integer or expression; its own arithmetic is used through this very
contract, one level down); a term denotes coef * base**exponent; a tower
integer denotes the integer v with denom * v == sum of terms + const."""
import ast, math, z3
from pyvc.engine import *
from pyvc.contract import *
from contracts.mathc import POW, cancel, IntPow
import contracts.mathc as MC
M = "Exp_Int"; I = z3.IntSort(); B = z3.BoolSort()
IPB = z3.Function("root", I, I); IPK = z3.Function("root_exponent", I, I)
EM = z3.Function("emod", I, I, I); DQ = z3.Function("equo", I, I, I)     # Euclidean remainder and quotient
def emod(x, m): return And(x == m * DQ(x, m) + EM(x, m), EM(x, m) >= 0, EM(x, m) < m)

def exp(E, d):
    E.assume(d >= 0); return Obj(E, "Exp", {"den": d})
def xden(E, x):
    if isinstance(x, Obj) and x.cls == "Exp": return x.fields["den"]
    if isinstance(x, int) or is_zint(x): return zi(x)
    raise Unsupported("exponent %r" % (x,))
def exp_binop(E, op, a, b):
    x, y = xden(E, a), xden(E, b)
    if isinstance(op, ast.Add): return Obj(E, "Exp", {"den": x + y})
    if isinstance(op, ast.Sub): return Obj(E, "Exp", {"den": x - y})
    if isinstance(op, ast.Mult): return Obj(E, "Exp", {"den": x * y})
    raise Unsupported("operation on exponents")
def mk_term(E, base=None, coef=None, e=None):
    b = base if base is not None else E.int("base"); c = coef if coef is not None else E.int("coef")
    e = e if e is not None else exp(E, E.int("e"))
    E.assume([b >= 2, c != 0, IPB(b) == b, IPK(b) == 1])
    return E.new(M, "ExpTerm", base=b, coef=c, exponent=e, sign=E.int("sg"), is_const=E.bool("ic"), formula_str=Opaque("str"), depth=E.int("dp"), tower_value=Opaque("tower"))
def tval(E, t):
    if isinstance(t, Obj) and "val" in t.meta: return t.meta["val"]
    return zi(t.fields["coef"]) * POW(zi(t.fields["base"]), xden(E, t.fields["exponent"]))
def abs_term(E, val, base):
    t = E.new(M, "ExpTerm", base=base, coef=Opaque("coef"), exponent=Opaque("exponent"), sign=Opaque("sign"), is_const=Opaque("is_const"), formula_str=Opaque("str"), depth=Opaque("depth"), tower_value=Opaque("tower"))
    t.meta["val"] = val; return t
def mk_terms(E, name, base):
    n = E.int(name + "_n"); C = E.func(name + "_coef", I, I); X = E.func(name + "_exp", I, I); P = E.func(name + "_P", I, I)
    E.assume([n >= 1, P(0) == 0])
    IC = E.func(name + "_ic", I, B)
    def get(k):
        k = zi(k); E.assume([C(k) != 0, X(k) >= 0])
        return E.new(M, "ExpTerm", base=base, coef=C(k), exponent=Obj(E, "Exp", {"den": X(k)}), sign=Opaque("sign"), is_const=IC(k), formula_str=Opaque("str"), depth=Opaque("depth"), tower_value=Opaque("tower"))
    s = SymSeq(E, get, n, "list")
    s.P = lambda k: P(k); s.C = C; s.X = X; s.tv = lambda k: C(k) * POW(base, X(k))
    s.unf = lambda k: P(k + 1) == P(k) + C(k) * POW(base, X(k))
    return s
def tsum(E, ts):
    if isinstance(ts, Obj) and ts.cls == "TermAcc": return ts.fields["sum"]
    if isinstance(ts, Obj) and ts.cls == "AbsTerms": return ts.fields["sum"]
    if isinstance(ts, SymSeq):
        if hasattr(ts, "parts"): return tsum(E, ts.parts[0]) + tsum(E, ts.parts[1])
        if not hasattr(ts, "P"):
            F = E.func("F", I, I); E.assume(F(0) == 0); ts.P = lambda k: F(k)
            ts.unf = lambda k: F(k + 1) == F(k) + tval(E, ts.get(k))
        return ts.P(zi(ts.length))
    if isinstance(ts, PyList):
        r = z3.IntVal(0)
        for t in ts.items: r = r + tval(E, t)
        return r
    raise Unsupported("term list %r" % (ts,))
def abs_terms(E, total, nonempty=None):
    return Obj(E, "AbsTerms", {"sum": total, "nonempty": nonempty if nonempty is not None else E.bool("ne")})
def is_x(x): return isinstance(x, Obj) and getattr(x.cls, "name", "") == "ExpInt"
def mk_x(E, name="x", terms=None, base=None):
    b = base if base is not None else E.int(name + "_base")
    E.assume([b >= 2, IPB(b) == b, IPK(b) == 1])
    t = terms if terms is not None else mk_terms(E, name, b); c = E.int(name + "_const"); d = E.int(name + "_denom"); v = E.int(name + "_v")
    E.assume([d >= 1, d * v == tsum(E, t) + c])
    o = E.new(M, "ExpInt", terms=t, const=c, denom=d, base=b, sign=E.int("sg"), is_const=E.bool("ic"), depth=Opaque("depth"), formula_str=Opaque("str"), tower_value=Opaque("tower"))
    o.meta["v"] = v; return o
def exact_quot(E, x, y, q, r, w):
    """x == y*w, hence floor division gives q == w (uniqueness lemma)"""
    E.prove("numerator is the denominator times the value", x == y * w)
    unique(E, x, y, q, r, w, z3.IntVal(0))
def denotes(E, r, w):
    """obligations: r denotes the integer w"""
    if is_x(r):
        return [("denominator is positive", zi(r.fields["denom"]) >= 1), ("denotes the operation", zi(r.fields["denom"]) * w == tsum(E, r.fields["terms"]) + zi(r.fields["const"]))]
    if isinstance(r, int) or is_zint(r): return [("denotes the operation", zi(r) == w)]
    raise Unsupported("result %r" % (r,))
def xv(E, x):
    if is_x(x): return x.meta["v"]
    return zi(x)
def fresh_x(E, w):
    o = mk_x(E, "r"); o.meta["v"] = w; E.assume(zi(o.fields["denom"]) * w == tsum(E, o.fields["terms"]) + zi(o.fields["const"])); return o
def hook_all(E, args, kw): return E.bool("all") if isinstance(args[0], (SymSeq, Obj)) else MISSING
def acc_attr(E, o, name):
    if name == "append":
        def f(E, x): E.setfield(o, "sum", o.fields["sum"] + tval(E, x)); E.setfield(o, "nonempty", z3.BoolVal(True))
        return f
    raise Unsupported("list method " + name)
def setcomp(E, it, e): return Obj(E, "AbsSet", {})
def sorted_hook(E, args, kw):
    if not isinstance(args[0], (SymSeq, Obj)): return MISSING
    s = mk_terms(E, "srt", E.ghost["base"]); E.assume(tsum(E, s) == tsum(E, args[0])); E.ghost["sorted"] = s   # sorting permutes: same sum
    return s
EXTS = {("binop", "Exp"): exp_binop, ("isinstance", "ExpInt"): lambda E, x: True if isinstance(x, Obj) and x.cls == "Exp" else MISSING, ("int", "pow"): lambda E, x, y: POW(x, y),
        ("builtin", "all"): hook_all, ("builtin", "max"): lambda E, a, k: Opaque("max") if isinstance(a[0], (SymSeq, Obj)) else MISSING, ("setcomp", "*"): setcomp, ("AbsSet", "len"): lambda E, o: E.int("len"),
        ("TermAcc", "attr"): acc_attr, ("TermAcc", "truth"): lambda E, o: o.fields["nonempty"], ("AbsTerms", "truth"): lambda E, o: o.fields["nonempty"],
        ("TermAcc", "havoc"): lambda E, o, f: o.fields.__setitem__(f, E.int("sum") if f == "sum" else E.bool("ne")) or True,
        ("builtin", "sorted"): sorted_hook, ("isinstance", "Expression"): lambda E, x: False if isinstance(x, Obj) and x.cls == "Exp" else MISSING, ("isinstance", "Fraction"): lambda E, x: False}
REFUSE = ("AssertionError", "ExpIntException", "NotImplementedError")
class XC(Contract):
    module = M
    def raises(self, E, old, a, ex): return [("only an explicit refusal (%s)" % ex.kind, ex.kind in REFUSE)]

class Root(Contract):
    """int_pow as used here (its contract is verified in mathc)."""
    module = "Math"; qualname = "int_pow"; params = ["n"]; assumed = True; why = "verified in contracts.mathc (m**k == n); that the root is not itself a perfect power is bounded (C12)"
    def apply_call(self, E, f, argv):
        n = zi(argv[0]); b, k = IPB(n), IPK(n)
        E.assume([k >= 1, POW(b, k) == n, IPB(b) == b, IPK(b) == 1, Implies(n >= 2, b >= 2), Implies(k == 1, b == n)])
        return (b, k)
class ModPow(Contract):
    module = "Math"; qualname = "exp_mod"; params = ["b", "k", "m"]; assumed = True; why = "verified in contracts.mathc"
    def apply_call(self, E, f, argv):
        b, k, m = zi(argv[0]), xden(E, argv[1]), zi(argv[2])
        E.prove("call exp_mod: domain", And(k >= 0, m >= 1), "pre")
        if E.choose(2) == 1: raise PyRaise("NotImplementedError")
        x = POW(b, k); E.assume(emod(x, m)); return EM(x, m)

class TermNormalize(XC):
    qualname = "ExpTerm.normalize"; params = ["self"]
    def args(self, E):
        b, c = E.int("b"), E.int("c"); e = exp(E, E.int("e"))
        E.assume([b >= 2, c != 0])
        return NS(self=E.new(M, "ExpTerm", base=b, coef=c, exponent=e))
    def old(self, E, a): return NS(v=tval(E, a.self), b=a.self.fields["base"], c=a.self.fields["coef"], e=xden(E, a.self.fields["exponent"]))
    def modifies(self, E, a): return [(a.self, "base"), (a.self, "coef"), (a.self, "exponent")]
    def loops(self):
        def pre(E, env):
            s = env.self; b, e = zi(s.fields["base"]), xden(E, s.fields["exponent"])
            o = E.ghost["o"]; n, k = IPB(o.b), IPK(o.b)
            # (n**k)**e == n**(k*e)   (lemma PowLaws)
            E.assume(POW(POW(n, k), o.e) == POW(n, o.e * k))
        def inv(E, env):
            s = env.self; c, b, e = zi(s.fields["coef"]), zi(s.fields["base"]), xden(E, s.fields["exponent"]); o = E.ghost["o"]
            return [("value unchanged", c * POW(b, e) == o.v), ("base", And(b >= 2, IPB(b) == b, IPK(b) == 1)), ("coefficient is not zero", c != 0), ("exponent", e >= 0)]
        def snap(E, env): s = env.self; return (zi(s.fields["coef"]), zi(s.fields["base"]), xden(E, s.fields["exponent"]))
        def after(E, env, old):
            c, b, e = old; s = env.self; c1 = zi(s.fields["coef"])
            E.assume(POW(b, e + 1) == b * POW(b, e))
            E.prove("exact division", c == c1 * b)
            E.prove("moved one factor", c1 * (b * POW(b, e)) == (c1 * b) * POW(b, e))
            E.prove("coefficient stays non-zero", c1 != 0)
        return [Loop("factors", inv, pre=pre, snapshot=snap, after=after, havoc_field=lambda E, o, f: MISSING)]
    def lemmas(self, E, old, a, r): pass
    def setup(self, E):
        E.exts[("Exp", "havoc")] = lambda E, o, f: MISSING
        E.exts[("ExpTerm", "havoc")] = lambda E, o, f: (o.fields.__setitem__("exponent", Obj(E, "Exp", {"den": E.int("e")})) or True) if f == "exponent" else (o.fields.__setitem__(f, E.int(f)) or True) if f in ("base", "coef") else False
    def run_body(self, E, f, argv):
        s = argv[0]; E.ghost["o"] = NS(v=tval(E, s), b=zi(s.fields["base"]), e=xden(E, s.fields["exponent"]))
        return XC.run_body(self, E, f, argv)
    def post(self, E, old, a, r):
        s = a.self; b = zi(s.fields["base"])
        return [("value unchanged", tval(E, s) == old.v), ("base is a root", And(b >= 2, b == IPB(old.b))), ("coefficient is not zero", zi(s.fields["coef"]) != 0), ("exponent", xden(E, s.fields["exponent"]) >= 0)]
    def apply_call(self, E, f, argv):
        s = argv[0]; b, c, e = zi(s.fields["base"]), zi(s.fields["coef"]), xden(E, s.fields["exponent"]); v = c * POW(b, e)
        E.prove("call normalize: requires base >= 2 and a non-zero coefficient", And(b >= 2, c != 0, e >= 0), "pre")
        c1, e1 = E.int("c"), E.int("e")
        E.setfield(s, "base", IPB(b)); E.setfield(s, "coef", c1); E.setfield(s, "exponent", Obj(E, "Exp", {"den": e1}))
        E.assume([c1 * POW(IPB(b), e1) == v, c1 != 0, e1 >= 0, IPB(b) >= 2, IPB(IPB(b)) == IPB(b), IPK(IPB(b)) == 1])
class TermEval(Contract):
    module = M; qualname = "ExpTerm.eval"; params = ["self"]; assumed = True; why = "computes the magnitude (tower_value), not the denotation; verified: expeval"
    def apply_call(self, E, f, argv):
        s = argv[0]
        E.setfield(s, "is_const", E.bool("ic")); E.setfield(s, "tower_value", Opaque("tower"))
class TermInit(XC):
    qualname = "ExpTerm.__init__"; params = ["self", "base", "coef", "exponent"]
    def args(self, E): return NS(self=E.new(M, "ExpTerm"), base=E.int("b"), coef=E.int("c"), exponent=exp(E, E.int("e")))
    def pre(self, E, a): return [("base at least 2", zi(a.base) >= 2), ("exponent not negative", xden(E, a.exponent) >= 0)]
    def modifies(self, E, a): return [(a.self, None)]
    def setup(self, E): E.exts[("external", "x")] = None
    def raises(self, E, old, a, ex): return [("raises only for a zero coefficient", And(ex.kind == "AssertionError", zi(a.coef) == 0))]
    def post(self, E, old, a, r):
        s = a.self
        return [("denotes coef * base**exponent", tval(E, s) == zi(a.coef) * POW(zi(a.base), xden(E, a.exponent))), ("coefficient is not zero", zi(s.fields["coef"]) != 0), ("base", zi(s.fields["base"]) == IPB(zi(a.base))),
                ("sign of the value", zi(s.fields["sign"]) == z3.If(zi(s.fields["coef"]) > 0, 1, -1))]
    def apply_call(self, E, f, argv):
        s, b, c, e = argv
        if isinstance(c, Opaque) or isinstance(e, Opaque): raise Unsupported("term built from an abstract term")
        if not E.branch(zi(c) != 0): raise PyRaise("AssertionError")
        E.prove("call ExpTerm(): requires base >= 2 and exponent >= 0", And(zi(b) >= 2, xden(E, e) >= 0), "pre")
        for n in ("sign", "is_const", "formula_str", "depth", "tower_value"): E.setfield(s, n, Opaque(n))
        E.setfield(s, "coef", Opaque("coef")); E.setfield(s, "exponent", Opaque("exponent")); E.setfield(s, "base", IPB(zi(b)))
        s.meta["val"] = zi(c) * POW(zi(b), xden(E, e))
class SignC(Contract):
    module = M; qualname = "sign"; params = ["x"]; inline = True
    def args(self, E): return NS(x=E.int("x"))
    def post(self, E, old, a, r): return [("sign", zi(r) == z3.If(a.x > 0, 1, z3.If(a.x < 0, -1, 0)))]
class Depth(Contract):
    module = M; qualname = "exp_int_depth"; params = ["x"]; assumed = True; why = "depth counter for the resource limit only"
    def apply_call(self, E, f, argv): return E.int("depth")
class TrySimplify(Contract):
    module = M; qualname = "try_simplify"; params = ["x"]; assumed = True; why = "returns the value as an int or the object itself; verified: expeval"
    def apply_call(self, E, f, argv):
        x = argv[0]
        if isinstance(x, int) or is_zint(x): return x
        if isinstance(x, Obj) and x.cls == "Exp": return x
        if is_x(x):
            if E.choose(2) == 0: return x
            v = E.int("sv"); E.assume(v == xv(E, x)); return v
        raise Unsupported("try_simplify")
class TryEval(Contract):
    module = M; qualname = "try_eval"; params = ["x"]; assumed = True; why = "returns the value as an int or None; verified: expeval"
    def apply_call(self, E, f, argv):
        x = argv[0]
        if isinstance(x, int) or is_zint(x): return x
        if is_x(x):
            if E.choose(2) == 0: return None
            v = E.int("sv"); E.assume(v == xv(E, x)); return v
        raise Unsupported("try_eval")

class TermMod(XC):
    qualname = "ExpTerm.mod"; params = ["self", "m"]
    def args(self, E): return NS(self=mk_term(E), m=E.int("m"))
    def pre(self, E, a): return [("positive modulus", zi(a.m) >= 1)]
    def lemmas(self, E, old, a, r):
        s = a.self; p = POW(zi(s.fields["base"]), xden(E, s.fields["exponent"])); c = zi(s.fields["coef"]); m = zi(a.m); v = tval(E, s)
        for x, y, q, rr in E.ghost.get("divs", []):
            K = E.int("K"); E.assume(K == DQ(p, m) * c + q)
            E.prove("the value is the remainder plus a multiple of m", v == m * K + rr)
            E.assume(emod(v, m)); unique(E, v, m, DQ(v, m), EM(v, m), K, rr)
    def post(self, E, old, a, r): return [("remainder of the value", zi(r) == EM(tval(E, a.self), zi(a.m)))]
    def apply_call(self, E, f, argv):
        s, m = argv; v = tval(E, s); E.assume(emod(v, zi(m))); return EM(v, zi(m))
def unique(E, v, m, q1, r1, q2, r2):
    """uniqueness of quotient and remainder (lemma DivUnique)"""
    E.assume(Implies(And(m >= 1, v == m * q1 + r1, 0 <= r1, r1 < m, v == m * q2 + r2, 0 <= r2, r2 < m), And(q1 == q2, r1 == r2)))
class DivUnique(Lemma):
    name = "quotient and remainder are unique; laws of powers"
    def obligations(self, E):
        m, d, r1, r2 = E.int("m"), E.int("d"), E.int("r1"), E.int("r2")
        E.assume([m >= 1, m * d == r2 - r1, 0 <= r1, r1 < m, 0 <= r2, r2 < m])
        E.prove("no positive difference", Implies(d >= 1, m * d >= m)); E.prove("no negative difference", Implies(d <= -1, m * d <= -m))
        E.prove("equal quotients", d == 0); E.prove("equal remainders", r1 == r2)
        x, p, q, n, k = [E.int(c) for c in "xpqnk"]
        E.assume([p >= 0, q >= 0, k >= 0, POW(x, 0) == 1, POW(n, 0) == 1])
        E.induct("exponents add up", q, lambda i: POW(x, p + i) == POW(x, p) * POW(x, i), unfold=lambda i: And(POW(x, p + i + 1) == x * POW(x, p + i), POW(x, i + 1) == x * POW(x, i), x * (POW(x, p) * POW(x, i)) == POW(x, p) * (x * POW(x, i))))
        b = POW(n, k); E.assume(POW(b, 0) == 1)
        E.induct("powers of powers", q, lambda i: POW(b, i) == POW(n, i * k), unfold=lambda i: And(POW(b, i + 1) == b * POW(b, i), POW(n, i * k + k) == POW(n, i * k) * POW(n, k), (i + 1) * k == i * k + k, b * POW(n, i * k) == POW(n, i * k) * b))
class TermMulInt(XC):
    qualname = "ExpTerm.mul_int"; params = ["self", "n"]
    def args(self, E): return NS(self=mk_term(E), n=E.int("n"))
    def lemmas(self, E, old, a, r):
        s = a.self; p = POW(zi(s.fields["base"]), xden(E, s.fields["exponent"])); E.prove("regroup", (zi(s.fields["coef"]) * zi(a.n)) * p == (zi(s.fields["coef"]) * p) * zi(a.n))
    def raises(self, E, old, a, ex): return [("refuses only zero", zi(a.n) == 0)]
    def post(self, E, old, a, r): return [("value times n", tval(E, r) == tval(E, a.self) * zi(a.n)), ("base kept", zi(r.fields["base"]) == zi(a.self.fields["base"]))]
    def apply_call(self, E, f, argv):
        s, n = argv; E.prove("call mul_int: non-zero factor", zi(n) != 0, "pre")
        return abs_term(E, tval(E, s) * zi(n), s.fields["base"])
class TermDivInt(XC):
    qualname = "ExpTerm.div_int"; params = ["self", "n"]
    def args(self, E):
        t = mk_term(E); n, q = E.int("n"), E.int("q"); E.assume(zi(t.fields["coef"]) == q * n); E.ghost["q"] = q; E.ghost["exact"] = [(zi(t.fields["coef"]), n, q)]
        return NS(self=t, n=n)
    def raises(self, E, old, a, ex): return [("refuses only zero", zi(a.n) == 0)]
    def lemmas(self, E, old, a, r):
        s = a.self; p = POW(zi(s.fields["base"]), xden(E, s.fields["exponent"])); E.prove("regroup", (E.ghost["q"] * p) * zi(a.n) == (E.ghost["q"] * zi(a.n)) * p)
    def post(self, E, old, a, r): return [("quotient times n is the value", tval(E, r) * zi(a.n) == tval(E, a.self)), ("base kept", zi(r.fields["base"]) == zi(a.self.fields["base"]))]
    DV = z3.Function("term_quotient", I, I, I)
    def apply_call(self, E, f, argv):
        s, n = argv; n = zi(n); c = zi(s.fields["coef"])
        E.assume([MC.D(1, c), MC.D(-1, c)] + [Implies(And(MC.D(h, c), n == -h), MC.D(n, c)) for h in E.ghost.get("gs", [])])
        E.prove("call div_int: non-zero divisor of the coefficient", And(n != 0, MC.D(n, c)), "pre")
        v = TermDivInt.DV(tval(E, s), n); E.assume(v * n == tval(E, s)); return abs_term(E, v, s.fields["base"])
class TermMulTerm(XC):
    qualname = "ExpTerm.mul_term"; params = ["self", "other"]
    def args(self, E): 
        b = E.int("base"); return NS(self=mk_term(E, b), other=mk_term(E, b))
    def lemmas(self, E, old, a, r):
        s, o = a.self, a.other; b = zi(s.fields["base"]); x, y = xden(E, s.fields["exponent"]), xden(E, o.fields["exponent"]); c, d = zi(s.fields["coef"]), zi(o.fields["coef"])
        E.assume(POW(b, x + y) == POW(b, x) * POW(b, y))
        E.prove("regroup", (c * d) * (POW(b, x) * POW(b, y)) == (c * POW(b, x)) * (d * POW(b, y)))
    def post(self, E, old, a, r): return [("product of the values", tval(E, r) == tval(E, a.self) * tval(E, a.other)), ("base kept", zi(r.fields["base"]) == zi(a.self.fields["base"]))]
    def apply_call(self, E, f, argv):
        s, o = argv; E.prove("call mul_term: same base", zi(s.fields["base"]) == zi(o.fields["base"]), "pre")
        return abs_term(E, tval(E, s) * tval(E, o), s.fields["base"])

class StructEq(Contract):
    module = M; qualname = "struct_eq"; params = ["a", "b"]; assumed = True; why = "structural equality implies equal denotation; verified: expeval"
    def apply_call(self, E, f, argv):
        a, b = argv
        if a is None or b is None: return False
        r = E.bool("same"); E.assume(Implies(r, xden(E, a) == xden(E, b))); return r
class TowerValue(Contract):
    module = M; qualname = "tower_value"; params = ["x"]; assumed = True; why = "magnitude estimate, not part of the denotation"
    def apply_call(self, E, f, argv): return Opaque("tower")
class NormalizeTerms(XC):
    qualname = "normalize_terms"; params = ["terms"]
    def args(self, E):
        b = E.int("base"); E.assume([b >= 2, IPB(b) == b, IPK(b) == 1]); E.ghost["base"] = b
        return NS(terms=mk_terms(E, "t", b))
    def old(self, E, a): return NS(s=tsum(E, a.terms))
    def loops(self):
        def pre(E, env):
            E.ghost["some"] = E.choose(2) == 1
            for nm, v in list(env.fr.locals.items()):
                if isinstance(v, PyList) and not v.items: env.fr.locals[nm] = Obj(E, "TermAcc", {"sum": z3.IntVal(0), "nonempty": z3.BoolVal(False)})
        def hv(E, fr, n):
            v = fr.locals[n]
            if isinstance(v, Obj) and v.cls == "TermAcc": return MISSING
            some = E.ghost.get("some")
            if n.endswith("prev_exponent"): return exp(E, E.int("pe")) if some else None
            if n.endswith("prev_coef") : return E.int("pc") if some else None
            if n.endswith("prev_base"): return E.int("pb") if some else None
            return MISSING
        def acc(env):
            for v in env.fr.locals.values():
                if isinstance(v, Obj) and v.cls == "TermAcc": return v
                if isinstance(v, PyList) and not v.items: return Obj(E, "TermAcc", {"sum": z3.IntVal(0), "nonempty": z3.BoolVal(False)})
            raise Unsupported("accumulator")
        def pend(E, env):
            c = env.prev_coef
            if c is None: return z3.IntVal(0)
            return zi(c) * POW(zi(env.prev_base), xden(E, env.prev_exponent))
        def inv(E, env):
            s = E.ghost["sorted"]; k = zi(env.extra["k"]); b = E.ghost["base"]; c = env.prev_coef
            out = [("sum of the emitted terms and the pending one", acc(env).fields["sum"] + pend(E, env) == s.P(k)), ("an empty list adds up to 0", Implies(Not(acc(env).fields["nonempty"]), acc(env).fields["sum"] == 0))]
            if c is not None: out += [("pending base", zi(env.prev_base) == b), ("pending exponent", xden(E, env.prev_exponent) >= 0)]
            else: out += [("nothing before the first term", k == 0)]
            return out
        def head(E, env): E.assume(E.ghost["sorted"].unf(zi(env.extra["k"])))
        def after(E, env, old): pass
        return [Loop("terms", inv, pre=pre, head=head, havoc_local=hv, choose=True)]
    def post(self, E, old, a, r): return [("same sum", tsum(E, r) == old.s)]
    def apply_call(self, E, f, argv):
        if E.choose(2) == 1: raise PyRaise("AssertionError")
        r = abs_terms(E, tsum(E, argv[0])); E.assume(Implies(Not(r.fields["nonempty"]), r.fields["sum"] == 0)); return r     # the empty list adds up to 0

class XNormalize(XC):
    qualname = "ExpInt.normalize"; params = ["self"]
    def args(self, E):
        b = E.int("base"); E.assume([b >= 2, IPB(b) == b, IPK(b) == 1])
        t = mk_terms(E, "t", b); c, d, w = E.int("const"), E.int("denom"), E.int("w")
        E.assume([d != 0, d * w == tsum(E, t) + c]); E.ghost["w"] = w; E.ghost["t"] = t
        return NS(self=E.new(M, "ExpInt", terms=t, const=c, denom=d))
    def modifies(self, E, a): return [(a.self, "const"), (a.self, "denom"), (a.self, "terms")]
    def old(self, E, a): 
        D = MC.D; t = a.self.fields["terms"]; E.ghost["c0"], E.ghost["d0"] = zi(a.self.fields["const"]), zi(a.self.fields["denom"])
        # divisibility: sign and transitivity (lemma DivTrans)
        E.assume([Forall([I, I], lambda g, x: D(-g, x) == D(g, x), patterns=lambda g, x: [D(-g, x)]), Forall([I], lambda g: D(g, g), patterns=lambda g: [D(g, g)])])
        return NS(t=t)
    def loops(self):
        def inv(E, env):
            g = E.ghost; t = g["t"]; c = zi(env.common); k = zi(env.extra["k"]); g.setdefault("gs", []).append(c)
            return [("divides constant and denominator", And(MC.D(c, g["c0"]), MC.D(c, g["d0"]))), ("divides the coefficients so far", Forall([I], lambda i: Implies(And(0 <= i, i < k), MC.D(c, t.C(i))), patterns=lambda i: [t.C(i)])), ("positive", c >= 1)]
        def after(E, env, old):
            t = E.ghost["t"]; c = zi(env.common)
            E.assume([Implies(And(MC.D(c, old), MC.D(old, x)), MC.D(c, x)) for x in (E.ghost["c0"], E.ghost["d0"])])
            E.assume(Forall([I], lambda i: Implies(And(MC.D(c, old), MC.D(old, t.C(i))), MC.D(c, t.C(i))), patterns=lambda i: [t.C(i)]))
        return [Loop("coefficients", inv, snapshot=lambda E, env: zi(env.common), after=after)]
    def facts(self, E, old, a):
        d0 = E.ghost["d0"]; ds = E.ghost.get("divs", [])
        com = None
        for x, y, qq, rr in ds:
            if z3.eq(x, d0): com = y
        if com is None: return None
        for x, y, qq, rr in ds:
            if not z3.eq(y, com): continue
            E.assume([MC.D(1, x), MC.D(-1, x)] + [Implies(And(MC.D(h, x), com == -h), MC.D(com, x)) for h in E.ghost["gs"]])
            E.prove("the common factor divides it", MC.D(com, x))
            u = E.int("u")
            E.assume(x == com * u)     # meaning of divisibility
            z = E.int("z"); E.assume(z == u - qq)
            MC.small_multiple(E, com, z); E.assume([Implies(And(com < 0, z >= 1), com * z <= com), Implies(And(com < 0, z <= -1), com * z >= -com)])
            E.prove("the remainder is a multiple of the divisor", rr == com * z)
            E.prove("exact division", rr == 0)
        E.prove("the common factor has the sign of the denominator", And(com != 0, (com > 0) == (d0 > 0)))
        d1 = [qq for x, y, qq, rr in ds if z3.eq(x, d0) and z3.eq(y, com)][0]
        E.assume([Implies(And(com > 0, d1 <= 0), d1 * com <= 0), Implies(And(com < 0, d1 <= 0), d1 * com >= 0)])
        E.prove("the new denominator is positive", d1 >= 1)
        return com
    def lemmas(self, E, old, a, r):
        s = a.self; t, q = old.t, s.fields["terms"]
        if q is t: return
        g0, d0, w = E.ghost["c0"], E.ghost["d0"], E.ghost["w"]
        com = self.facts(E, old, a)
        if com is None: raise Unsupported("normalisation by another way")
        tsum(E, q)
        E.induct("divided terms add up", zi(t.length), lambda k: q.P(k) * com == t.P(k), unfold=lambda k: And(t.unf(k), q.unf(k), (q.P(k) + tval(E, q.get(k))) * com == q.P(k) * com + tval(E, q.get(k)) * com))
        n = zi(t.length); c1, d1 = zi(s.fields["const"]), zi(s.fields["denom"])
        E.prove("factor out", And((d1 * w) * com == d0 * w, (q.P(n) + c1) * com == t.P(n) + g0))
        cancel(E, d1 * w, q.P(n) + c1, com)
    def raises(self, E, old, a, ex):
        self.facts(E, old, a)
        return [("no assertion for a non-zero denominator", False)]
    def post(self, E, old, a, r):
        s = a.self
        return [("denotes the same integer", zi(s.fields["denom"]) * E.ghost["w"] == tsum(E, s.fields["terms"]) + zi(s.fields["const"])), ("positive denominator", zi(s.fields["denom"]) >= 1)]
    def apply_call(self, E, f, argv):
        s = argv[0]; c, d, t = zi(s.fields["const"]), zi(s.fields["denom"]), s.fields["terms"]
        if not E.branch(d != 0): raise PyRaise("AssertionError")
        w = E.ghost["w"]; c1, d1, T = E.int("const"), E.int("denom"), E.int("tot")
        E.assume([d1 >= 1, Implies(d * w == tsum(E, t) + c, d1 * w == T + c1)])
        E.setfield(s, "const", c1); E.setfield(s, "denom", d1); E.setfield(s, "terms", abs_terms(E, T, z3.BoolVal(True)))
class GcdD(Contract):
    module = "Math"; qualname = "gcd"; params = ["a", "b"]; assumed = True; why = "verified in contracts.mathc"
    def apply_call(self, E, f, argv):
        a, b = zi(argv[0]), zi(argv[1]); g = MC.GCD(a, b); E.assume([g >= 0, MC.D(g, a), MC.D(g, b), (g == 0) == And(a == 0, b == 0)]); E.ghost.setdefault("gs", []).append(g); return g
class LcmU(MC.Lcm):
    assumed = True; why = "verified in contracts.mathc"
class XEval(Contract):
    module = M; qualname = "ExpInt.eval"; params = ["self"]; assumed = True; why = "computes magnitude and sign; may refuse; verified: expeval"
    def apply_call(self, E, f, argv):
        if E.choose(2) == 1: raise PyRaise("ExpIntException")
        s = argv[0]
        for n in ("is_const", "tower_value", "sign"): E.setfield(s, n, Opaque(n))
class XInit(XC):
    qualname = "ExpInt.__init__"; params = ["self", "terms", "const", "denom"]
    def args(self, E):
        b = E.int("base"); E.assume([b >= 2]); t = mk_terms(E, "t", b); w = E.int("w"); E.ghost["w"] = w
        return NS(self=E.new(M, "ExpInt"), terms=t, const=E.int("const"), denom=E.int("denom"))
    def pre(self, E, a): return [("denotes an integer", zi(a.denom) * E.ghost["w"] == tsum(E, a.terms) + zi(a.const))]
    def modifies(self, E, a): return [(a.self, None)]
    def setup(self, E):
        def lst(E, args, kw):
            return MISSING
        E.exts[("AbsTerms", "comp")] = lambda E, o, e: Obj(E, "AbsIter", {}); E.exts[("AbsSet", "getitem")] = lambda E, o, k: E.int("base")
        E.exts[("builtin", "frozenset")] = lambda E, a, k: Obj(E, "AbsSet", {}) if isinstance(a[0], (SymSeq, Obj)) else MISSING
        E.exts[("builtin", "list")] = lambda E, a, k: a[0] if a and isinstance(a[0], Obj) else MISSING
        E.exts[("builtin", "max")] = lambda E, a, k: E.int("depth")
        E.exts[("str", "join")] = lambda E, o, it: Opaque("join")
    def post(self, E, old, a, r): return denotes(E, a.self, E.ghost["w"])
    def apply_call(self, E, f, argv):
        s, t, c, d = argv; c, d = zi(c), zi(d); w = E.ghost["w"]
        if not E.branch(d != 0): raise PyRaise("AssertionError")
        if E.choose(2) == 1: raise PyRaise("ExpIntException")
        E.prove("call ExpInt(): the arguments denote the intended value", d * w == tsum(E, t) + c, "pre") if E.ghost.get("strict") else None
        c1, d1, T = E.int("const"), E.int("denom"), E.int("tot")
        E.assume([d1 >= 1, Implies(d * w == tsum(E, t) + c, d1 * w == T + c1)])
        E.ghost["args"] = (d, tsum(E, t), c, t)
        for n, v in (("const", c1), ("denom", d1), ("terms", abs_terms(E, T, z3.BoolVal(True)))): E.setfield(s, n, v)
        for n in ("is_const", "tower_value", "sign", "depth", "formula_str", "base"): E.setfield(s, n, Opaque(n))

class XOp(XC):
    """Operators: the result denotes the operation on the integers."""
    always_x = False       # adding an int gives a tower integer again
    params = ["self", "other"]
    def other(self, E): return E.case(E.int("o"), mk_x(E, "y"))
    def args(self, E): 
        E.ghost["lcm_facts"] = True
        a = NS(self=mk_x(E, "x"), other=self.other(E)); E.ghost["base"] = a.self.fields["base"]; E.ghost["w"] = self.value(E, a); return a
    def post(self, E, old, a, r): return denotes(E, r, E.ghost["w"])
    def apply_call(self, E, f, argv):
        a = NS(**dict(zip(self.params, argv))); w = self.value(E, a)
        if E.choose(2) == 1: raise PyRaise("ExpIntException")
        if not (self.always_x and len(argv) > 1 and not is_x(argv[1])) and E.choose(2) == 1:
            r = E.int("ri"); E.assume(r == w); return r
        return fresh_x(E, w)
class XAdd(XOp):
    qualname = "ExpInt.__add__"
    always_x = True
    def value(self, E, a): return xv(E, a.self) + xv(E, a.other)
    def post(self, E, old, a, r): return denotes(E, r, E.ghost["w"]) + ([("a tower integer again", is_x(r))] if not is_x(a.other) else [])
    def lemmas(self, E, old, a, r):
        s, w = a.self, E.ghost["w"]; v1 = xv(E, s); d1, c1, t1 = zi(s.fields["denom"]), zi(s.fields["const"]), s.fields["terms"]
        if not is_x(a.other):
            o = zi(a.other); E.prove("distribute", d1 * (v1 + o) == d1 * v1 + o * d1); return
        y = a.other; v2 = xv(E, y); d2, c2, t2 = zi(y.fields["denom"]), zi(y.fields["const"]), y.fields["terms"]
        L, _, _, ns, no = E.ghost["lcm"]
        n1, n2 = zi(t1.length), zi(t2.length)
        for t, k, q in ((t1, ns, None), (t2, no, None)):
            pass
        parts = E.ghost.get("scaled", [])
        for t, q, k in ((t1, None, ns), (t2, None, no)):
            for s2 in parts:
                if s2.src_terms is t:
                    tsum(E, s2)
                    E.induct("scaled terms", zi(t.length), lambda i: s2.P(i) == t.P(i) * k, unfold=lambda i: And(t.unf(i), s2.unf(i), (t.P(i) + t.tv(i)) * k == t.P(i) * k + t.tv(i) * k))
        N1, N2 = t1.P(n1) + c1, t2.P(n2) + c2
        E.prove("common denominator", And(L * v1 == (d1 * v1) * ns, L * v2 == (d2 * v2) * no))
        E.prove("sum", And((d1 * v1) * ns == N1 * ns, (d2 * v2) * no == N2 * no))
        E.prove("distribute", And(N1 * ns == t1.P(n1) * ns + c1 * ns, N2 * no == t2.P(n2) * no + c2 * no, L * (v1 + v2) == L * v1 + L * v2))
        for x, yv, q, rr in E.ghost.get("divs", []): exact_quot(E, x, yv, q, rr, v1 + v2)
    def setup(self, E): hook_scaled(E)
def hook_scaled(E):
    """remember which list a comprehension over a term list was built from"""
    orig = E.do_sym_comp
    def f(e):
        src = E._symit; r = orig(e)
        if isinstance(r, SymSeq) and isinstance(src, SymSeq):
            r.src_terms = src; E.ghost.setdefault("scaled", []).append(r)
        return r
    E.do_sym_comp = f
class XMul(XOp):
    qualname = "ExpInt.__mul__"
    def value(self, E, a): return xv(E, a.self) * xv(E, a.other)
    def other(self, E): return E.case(E.int("o"), mk_x(E, "y", base=E.ghost["b"]))
    def args(self, E):
        E.ghost["lcm_facts"] = True; b = E.int("b"); E.ghost["b"] = b; E.ghost["base"] = b
        a = NS(self=mk_x(E, "x", base=b), other=self.other(E)); E.ghost["w"] = self.value(E, a); return a
    def setup(self, E): hook_scaled(E)
    def loops(self):
        def pre(E, env):
            for nm, v in list(env.fr.locals.items()):
                if isinstance(v, PyList) and not v.items: env.fr.locals[nm] = Obj(E, "TermAcc", {"sum": z3.IntVal(0), "nonempty": z3.BoolVal(False)})
        def acc(E, env):
            for v in env.fr.locals.values():
                if isinstance(v, Obj) and v.cls == "TermAcc": return v.fields["sum"]
            raise Unsupported("accumulator")
        def tt(env): return env.self.fields["terms"], env.other.fields["terms"], zi(env.self.fields["const"]), zi(env.other.fields["const"])
        def outer(E, env):
            p, q, c1, c2 = tt(env); k = zi(env.extra["k"])
            return [("partial product", acc(E, env) == p.P(k) * (q.P(zi(q.length)) + c2))]
        def ohead(E, env):
            p, q, c1, c2 = tt(env); k = zi(env.extra["k"]); E.assume(p.unf(k)); E.ghost["ok"] = k; E.ghost["acc0"] = acc(E, env)
        def ipre(E, env):
            if "ok" in E.ghost: E.ghost["acc1"] = acc(E, env)
        def inner(E, env):
            p, q, c1, c2 = tt(env); j = zi(env.extra["k"]); k = E.ghost["ok"]
            return [("inner partial product", acc(E, env) == E.ghost["acc1"] + p.tv(k) * q.P(j))]
        def ihead(E, env):
            p, q, c1, c2 = tt(env); j = zi(env.extra["k"]); k = E.ghost["ok"]; E.assume(q.unf(j)); t = p.tv(k); s = q.tv(j)
            E.assume(t * (q.P(j) + s) == t * q.P(j) + t * s)
        def oafter(E, env, old):
            p, q, c1, c2 = tt(env); k = E.ghost["ok"]; n = zi(q.length); t = p.tv(k)
            E.prove("distributivity", (p.P(k) + t) * (q.P(n) + c2) == p.P(k) * (q.P(n) + c2) + (t * q.P(n) + t * c2))
        def last(E, env):
            p, q, c1, c2 = tt(env); j = zi(env.extra["k"])
            return [("constant times the other terms", acc(E, env) == E.ghost["accL"] + q.P(j) * c1)]
        def lpre(E, env): E.ghost["accL"] = acc(E, env)
        def lhead(E, env):
            p, q, c1, c2 = tt(env); j = zi(env.extra["k"]); E.assume(q.unf(j)); E.assume((q.P(j) + q.tv(j)) * c1 == q.P(j) * c1 + q.tv(j) * c1)
        return [Loop("outer", outer, pre=pre, head=ohead, after=oafter), Loop("inner", inner, pre=ipre, head=ihead), Loop("last", last, pre=lpre, head=lhead)]
    def lemmas(self, E, old, a, r):
        s = a.self; v1 = xv(E, s); d1, c1, t1 = zi(s.fields["denom"]), zi(s.fields["const"]), s.fields["terms"]; n1 = zi(t1.length)
        S1 = t1.P(n1); v2 = xv(E, a.other)
        for s2 in E.ghost.get("scaled", []):
            if s2.src_terms is t1:
                tsum(E, s2); k = v2
                E.induct("scaled terms", n1, lambda i: s2.P(i) == t1.P(i) * k, unfold=lambda i: And(t1.unf(i), s2.unf(i), (t1.P(i) + t1.tv(i)) * k == t1.P(i) * k + t1.tv(i) * k))
                E.prove("scaled value", And(d1 * (v1 * k) == (d1 * v1) * k, (d1 * v1) * k == (S1 + c1) * k, (S1 + c1) * k == S1 * k + c1 * k))
        if not is_x(a.other): return
        y = a.other; d2, c2, t2 = zi(y.fields["denom"]), zi(y.fields["const"]), y.fields["terms"]; S2 = t2.P(zi(t2.length))
        E.prove("product of numerators", And((d1 * d2) * (v1 * v2) == (d1 * v1) * (d2 * v2), (d1 * v1) * (d2 * v2) == (S1 + c1) * (S2 + c2)))
        E.prove("expand", (S1 + c1) * (S2 + c2) == S1 * (S2 + c2) + (S2 * c1 + c1 * c2))
        E.prove("positive denominator", d1 * d2 >= 1)
        for x, yv, q, rr in E.ghost.get("divs", []): exact_quot(E, x, yv, q, rr, v1 * v2)
class XDiv(XOp):
    """exact division: other divides the value"""
    qualname = "ExpInt.__truediv__"
    def args(self, E):
        E.ghost["lcm_facts"] = True
        s = mk_x(E, "x"); q, o = E.int("quot"), E.int("o"); E.assume(s.meta["v"] == q * o); E.ghost["w"] = q
        E.ghost["base"] = s.fields["base"]
        return NS(self=s, other=o)
    def lemmas(self, E, old, a, r):
        d1, q, o = zi(a.self.fields["denom"]), E.ghost["w"], zi(a.other); E.prove("regroup", (d1 * o) * q == d1 * (q * o))
    def apply_call(self, E, f, argv):
        s, o = argv; o = zi(o); q = E.int("quot")
        E.prove("call /: exact", E.ghost["divisible"](xv(E, s), o), "pre"); E.assume(q * o == xv(E, s))
        if E.choose(2) == 1: raise PyRaise("ExpIntException")
        return fresh_x(E, q)
class XMod(XOp):
    qualname = "ExpInt.__mod__"
    def other(self, E):
        o = E.int("o"); E.assume(o >= 1); return o
    def args(self, E): return NS(self=mk_x(E, "x"), other=self.other(E))
    def lemmas(self, E, old, a, r):
        s = a.self; v = xv(E, s); o = zi(a.other); d, c, t = zi(s.fields["denom"]), zi(s.fields["const"]), s.fields["terms"]; n = zi(t.length)
        E.assume(emod(v, o))
        sums = E.ghost.get("sums", [])
        if not sums:
            E.prove("v = 1*v + 0", v == 1 * v + 0) ; unique(E, v, o, DQ(v, o), EM(v, o), v, z3.IntVal(0)); return
        m = d * o
        F = sums[0]["F"]; G = E.func("G", I, I); E.assume(G(0) == 0)
        E.induct("sum of remainders", n, lambda k: t.P(k) == F(k) + m * G(k), unfold=lambda k: And(t.unf(k), sums[0]["unfold"](k), emod(t.tv(k), m), G(k + 1) == G(k) + DQ(t.tv(k), m), m * (G(k) + DQ(t.tv(k), m)) == m * G(k) + m * DQ(t.tv(k), m)))
        ds = E.ghost.get("divs", [])
        if len(ds) != 4: raise Unsupported("shape of the reduction")
        (x1, y1, q1, r1), (x2, y2, q2, r2), (x3, y3, q3, r3), (x4, y4, q4, r4) = ds
        K = E.int("K"); E.assume(K == G(n) + q1 + q2)
        E.prove("numerator = rd + m*K", t.P(n) + c == r2 + m * K)
        E.prove("numerator = d*(q3 + o*K) + r3", t.P(n) + c == d * (q3 + o * K) + r3)
        E.prove("exact", r3 == 0)
        cancel(E, v, q3 + o * K, d)
        E.prove("v times d", v * d == (q3 + o * K) * d)
        E.prove("value", v == q3 + o * K)
        K2 = E.int("K2"); E.assume(K2 == K + q4)
        E.prove("value = o*K2 + result", v == o * K2 + r4)
        unique(E, v, o, DQ(v, o), EM(v, o), K2, r4)
    def post(self, E, old, a, r): return [("exact remainder", zi(r) == EM(xv(E, a.self), zi(a.other)))]
    def apply_call(self, E, f, argv):
        s, o = argv; v, o = xv(E, s), zi(o); E.prove("call %: positive modulus", o >= 1, "pre")
        if E.choose(2) == 1: raise PyRaise("ExpIntException")
        E.assume(emod(v, o)); return EM(v, o)
class XDivmod(XOp):
    qualname = "ExpInt.__divmod__"
    def other(self, E):
        o = E.int("o"); E.assume(o >= 1); return o
    def args(self, E):
        a = NS(self=mk_x(E, "x"), other=self.other(E)); v, o = xv(E, a.self), zi(a.other)
        E.ghost["divisible"] = lambda x, y: And(x == y * DQ(v, o), y == o)
        return a
    def post(self, E, old, a, r):
        v, o = xv(E, a.self), zi(a.other)
        if not isinstance(r, tuple) or len(r) != 2: return [("a pair", False)]
        cancel(E, xv(E, r[0]), DQ(v, o), o)
        E.prove("cancel", xv(E, r[0]) * o == DQ(v, o) * o)
        return [("remainder", zi(r[1]) == EM(v, o)), ("quotient", xv(E, r[0]) == DQ(v, o))]
    def raises(self, E, old, a, ex): return [("only an explicit refusal", ex.kind in REFUSE)]
class XNeg(XOp):
    qualname = "ExpInt.__neg__"; params = ["self"]
    def args(self, E): a = NS(self=mk_x(E, "x")); E.ghost["w"] = self.value(E, a); return a
    def value(self, E, a): return -xv(E, a.self)
    def post(self, E, old, a, r): return [("denotes the operation", xv(E, r) == E.ghost["w"])]
class XSub(XOp):
    qualname = "ExpInt.__sub__"
    always_x = True
    def value(self, E, a): return xv(E, a.self) - xv(E, a.other)
    def post(self, E, old, a, r): return [("denotes the operation", xv(E, r) == E.ghost["w"])] + ([("a tower integer again", is_x(r))] if not is_x(a.other) else [])
class XRsub(XOp):
    qualname = "ExpInt.__rsub__"
    def other(self, E): return E.int("o")
    def value(self, E, a): return xv(E, a.other) - xv(E, a.self)
    def post(self, E, old, a, r): return [("denotes the operation", xv(E, r) == E.ghost["w"])]
class XFloordiv(XOp):
    qualname = "ExpInt.__floordiv__"
    def other(self, E):
        o = E.int("o"); E.assume(o >= 1); return o
    def args(self, E): return NS(self=mk_x(E, "x"), other=self.other(E))
    def post(self, E, old, a, r): return [("floor quotient", xv(E, r) == DQ(xv(E, a.self), zi(a.other)))]
def _dm_apply(self, E, f, argv):
    v, o = xv(E, argv[0]), zi(argv[1]); E.prove("call divmod: positive modulus", o >= 1, "pre")
    if E.choose(2) == 1: raise PyRaise("ExpIntException")
    E.assume(emod(v, o)); return (fresh_x(E, DQ(v, o)), EM(v, o))
XDivmod.apply_call = _dm_apply
CONTRACTS = [Root(), ModPow(), GcdD(), LcmU(), TermNormalize(), TermEval(), TermInit(), SignC(), Depth(), TrySimplify(), TryEval(), TermMod(), TermMulInt(), TermDivInt(), TermMulTerm(), StructEq(), TowerValue(),
             NormalizeTerms(), XNormalize(), XEval(), XInit(), XAdd(), XMul(), XDiv(), XMod(), XDivmod(), XNeg(), XSub(), XRsub(), XFloordiv()]
LEMMAS = ["DivUnique"]
