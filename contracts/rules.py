"""Contracts of Macro/Rule_Func.py and the rule application in
Macro/Proof_System.py (C05).

A rule's elementary change acts on the vector of block counts.  The tape's
blocks are numbered 0..n-1 (left half first); only their counts matter.  A rule
has, per block, either a variable with a minimum, or a fixed count.  G(t) is
the number of steps of its t-th application (t = 0, 1, ...), L(q, t) the last
visit of state q inside it."""
import ast, math, z3
from pyvc.engine import *
from pyvc.contract import *
from . import algebra as AL
from .algebra import den, mk_expr, is_e, SIG, POW, mk_terms, mk_vars
RF = "Macro.Rule_Func"; PS = "Macro.Proof_System"; AE = "Algebraic_Expression"; I = z3.IntSort(); B = z3.BoolSort(); INF = math.inf
# ---- single functions ---------------------------------------------------------------
class MaxReps(Contract):
    """the largest number of subtractions each of which starts at or above the minimum"""
    module = RF; qualname = "Subtract_Func.max_reps"; params = ["self", "start"]
    def args(self, E): return NS(self=E.new(RF, "Subtract_Func", var=Opaque("x"), min=E.int("min"), const=E.int("c"), is_decreasing=True, has_collatz_decrease=E.bool("cd")), start=E.int("start"))
    def pre(self, E, a): return [("subtracts a positive amount", zi(a.self.fields["const"]) >= 1)]
    def post(self, E, old, a, r):
        if not (isinstance(r, tuple) and len(r) == 2): return [("a pair", False)]
        n, f = zi(r[0]), zi(r[1]); c, m, s = zi(a.self.fields["const"]), zi(a.self.fields["min"]), zi(a.start)
        return [("final count is the start minus the repeated subtraction", f == s - n * c), ("no further subtraction is allowed", f < m), ("the last subtraction was allowed", s - (n - 1) * c >= m), ("at least one exactly if the start reaches the minimum", (n >= 1) == (s >= m))]
    def lemmas(self, E, old, a, r):
        c, m, s = zi(a.self.fields["const"]), zi(a.self.fields["min"]), zi(a.start); n = zi(r[0])
        E.assume([(n - 1) * c == n * c - c, Implies(And(n <= 0, c >= 1), n * c <= 0), Implies(And(n >= 1, c >= 1), n * c >= c)])
    def apply_call(self, E, f, argv):
        o, s = argv
        if not (isinstance(s, int) or is_zint(s)): raise Unsupported("symbolic count")
        n, fin = E.int("reps"), E.int("final"); c = zi(o.fields["const"])
        E.prove("call max_reps: subtracts a positive amount", c >= 1, "pre")
        for _, x in self.post(E, None, NS(self=o, start=s), (n, fin)): E.assume(x)
        return (n, fin)
class NumLemma(Lemma):
    """facts about products used as instances by the contracts of this module"""
    name = "monotonicity and distributivity of products"
    def obligations(self, E):
        n, m, d, c = E.int("n"), E.int("m"), E.int("d"), E.int("c")
        E.prove("(n-1)*c == n*c - c", (n - 1) * c == n * c - c)
        E.prove("products of a positive factor", And(Implies(And(n <= 0, c >= 1), n * c <= 0), Implies(And(n >= 1, c >= 1), n * c >= c)))
        E.prove("fewer subtractions leave more", Implies(And(m <= n, d <= 0), m * d >= n * d))
        E.prove("growing blocks only grow", Implies(And(n >= 0, d >= 0), n * d >= 0))
class AddRep(Contract):
    module = RF; qualname = "Add_Func.apply_rep"; params = ["self", "start", "num_reps"]; sgn = 1; cls = "Add_Func"
    def args(self, E): return NS(self=E.new(RF, self.cls, var=Opaque("x"), min=E.int("min"), const=E.int("c")), start=E.int("start"), num_reps=E.int("n"))
    def pre(self, E, a): return [("repetitions", zi(a.num_reps) >= 0)]
    def old(self, E, a):
        X = E.func("X", I, I); E.assume(X(0) == zi(a.start)); E.ghost["X"] = X; return NS()
    def lemmas(self, E, old, a, r):
        X = E.ghost["X"]; c = zi(a.self.fields["const"]); s = zi(a.start); n = zi(a.num_reps); g = self.sgn
        E.induct("repeated change", n, lambda j: X(j) == s + g * (j * c), unfold=lambda j: And(X(j + 1) == X(j) + g * c, (j + 1) * c == j * c + c))
    def post(self, E, old, a, r): return [("equals that many single changes", zi(r) == E.ghost["X"](zi(a.num_reps)))]
    def apply_call(self, E, f, argv): return zi(argv[1]) + self.sgn * (zi(argv[2]) * zi(argv[0].fields["const"]))
class SubRep(AddRep): qualname = "Subtract_Func.apply_rep"; sgn = -1; cls = "Subtract_Func"
class MultMin(Contract):
    """a minimum from which x -> coef*x + const never decreases"""
    module = RF; qualname = "Mult_Func.compute_min"; params = ["self", "min"]
    def args(self, E): return NS(self=E.new(RF, "Mult_Func", var=Opaque("x"), coef=E.int("coef"), const=E.int("const")), min=E.int("min"))
    def pre(self, E, a): return [("a growing factor", zi(a.self.fields["coef"]) >= 2), ("counts are not negative", zi(a.min) >= 0)]
    def lemmas(self, E, old, a, r):
        x = E.int("x"); E.ghost["x"] = x; r = zi(r); c, b = zi(a.self.fields["coef"]), zi(a.self.fields["const"]); E.assume(x >= r)
        # (coef-1)*x >= (coef-1)*r : monotonicity (NumLemma)
        E.assume([Implies(And(x >= r, c - 1 >= 0), (c - 1) * x >= (c - 1) * r), c * x == (c - 1) * x + x])
        for p, y, q, rr in E.ghost.get("divs", []):
            for z in (r,): E.assume(Implies(And(z >= q + 1, y >= 0), y * z >= y * (q + 1)))
            E.assume(y * (q + 1) == q * y + y)
        E.assume(Implies(And(r >= 0, c - 1 >= 0), (c - 1) * r >= 0))
    def post(self, E, old, a, r):
        x = E.ghost["x"]; c, b = zi(a.self.fields["coef"]), zi(a.self.fields["const"])
        return [("not below the given minimum", zi(r) >= a.min), ("no decrease at or above the minimum", c * x + b >= x)]
def ei(E, v, ex=None): return Obj(E, "EI", {"val": v, "exact": ex})
def eival(x): return x.fields["val"] if isinstance(x, Obj) and x.cls == "EI" else zi(x)
def ei_binop(E, op, a, b):
    """huge integers are exact (C13)"""
    x, y = eival(a), eival(b)
    if isinstance(op, ast.Add): return ei(E, x + y)
    if isinstance(op, ast.Sub): return ei(E, x - y)
    if isinstance(op, ast.Mult): return ei(E, x * y)
    if isinstance(op, ast.Div):
        # exact division only: the caller must know the quotient
        q = E.ghost.get("quotient")
        if q is None: raise Unsupported("division")
        q = q(E, x, y); E.prove("the division is exact", x == q * y); return ei(E, q)
    raise Unsupported("operation")
class MultRep(Contract):
    module = RF; qualname = "Mult_Func.apply_rep"; params = ["self", "start", "num_reps"]
    exts = {("binop", "EI"): ei_binop, ("isinstance", "ExpInt"): lambda E, x: isinstance(x, Obj) and x.cls == "EI"}
    def args(self, E): return NS(self=E.new(RF, "Mult_Func", var=Opaque("x"), coef=E.int("coef"), const=E.int("const"), min=E.int("min")), start=E.int("start"), num_reps=E.int("n"))
    def pre(self, E, a): return [("repetitions", zi(a.num_reps) >= 1), ("a growing factor", zi(a.self.fields["coef"]) >= 2)]
    def old(self, E, a):
        X, Q = E.func("X", I, I), E.func("Q", I, I); E.assume([X(0) == zi(a.start), Q(0) == 0]); c, b, s = zi(a.self.fields["coef"]), zi(a.self.fields["const"]), zi(a.start); n = zi(a.num_reps); E.assume(POW(c, 0) == 1); m = c - 1
        E.ghost["X"] = X
        # POW(c, j) == 1 + m*Q(j) with Q(j+1) = c*Q(j)+1, and X(j) == s*POW(c,j) + b*Q(j)
        E.induct("power is one plus a multiple", n, lambda j: POW(c, j) == 1 + m * Q(j), unfold=lambda j: And(POW(c, j + 1) == c * POW(c, j), Q(j + 1) == c * Q(j) + 1, c * (1 + m * Q(j)) == 1 + m * (c * Q(j) + 1)))
        E.induct("repeated change", n, lambda j: X(j) == s * POW(c, j) + b * Q(j), unfold=lambda j: And(X(j + 1) == c * X(j) + b, POW(c, j + 1) == c * POW(c, j), Q(j + 1) == c * Q(j) + 1, c * (s * POW(c, j) + b * Q(j)) == s * (c * POW(c, j)) + b * (c * Q(j)), b * (c * Q(j) + 1) == b * (c * Q(j)) + b))
        P, q = POW(c, n), Q(n)
        def quo(E, x, y):
            E.prove("divides by one less than the factor", y == m)
            E.prove("expanded", (s * m + b) * P - b == s * m * P + (b * P - b)); E.prove("multiple", b * P - b == b * (m * q))
            E.prove("factored", s * m * P + b * (m * q) == X(n) * m)
            return X(n)
        E.ghost["quotient"] = quo; return NS()
    def raises(self, E, old, a, ex): return [("only the refusal for a value that is not symbolic", ex.kind == "AssertionError")]
    def post(self, E, old, a, r): return [("equals that many single changes", eival(r) == E.ghost["X"](zi(a.num_reps)))]
class ExpIntMk(Contract):
    module = "Exp_Int"; qualname = "exp_int"; params = ["base", "exponent"]; assumed = True; why = "verified for C13"
    def apply_call(self, E, f, argv): E.assume(POW(zi(argv[0]), 0) == 1); return ei(E, POW(zi(argv[0]), zi(argv[1])))
# ---- sums of powers -----------------------------------------------------------------
PSUM = z3.Function("power_sum", I, I, I)     # PSUM(p, N) = sum of j**p for 0 <= j < N
class PowerSums(Lemma):
    name = "closed forms of the sums of powers"
    def obligations(self, E):
        N = E.int("N"); E.assume(N >= 0)
        def un(p, f):
            E.assume(PSUM(p, 0) == 0)
            E.induct("exponent %d" % p, N, lambda j: f(j), unfold=lambda j: PSUM(p, j + 1) == PSUM(p, j) + {0: 1, 1: j, 2: j * j, 3: j * j * j}[p])
        un(0, lambda j: PSUM(0, j) == j); un(1, lambda j: 2 * PSUM(1, j) == j * (j - 1)); un(2, lambda j: 6 * PSUM(2, j) == j * (j - 1) * (2 * j - 1))
        un(3, lambda j: 4 * PSUM(3, j) == (j * (j - 1)) * (j * (j - 1)))
        x, y = E.int("x"), E.int("y"); E.prove("halves", And(Implies(2 * x == y, y / 2 == x), Implies(6 * x == y, y / 6 == x))); E.prove("squares", (2 * x) * (2 * x) == 4 * (x * x))
def psum_facts(E, N):
    p = [PSUM(i, N) for i in range(4)]; a = N * (N - 1); b = N * (N - 1) * (2 * N - 1); E.assume([p[0] == N, 2 * p[1] == a, 6 * p[2] == b, p[3] == p[1] * p[1], a / 2 == p[1], b / 6 == p[2]])
class Fubini(Lemma):
    """sum over j < N of (c + sum_i r_i j**p_i) == c*N + sum_i r_i * PSUM(p_i, N)"""
    name = "a sum over terms and repetitions in either order"
    def obligations(self, E):
        c, n, N = E.int("c"), E.int("n"), E.int("N"); E.assume([n >= 0, N >= 0]); r = E.func("r", I, I); p = E.func("p", I, I); V = E.func("V", I, I, I); Q = E.func("Q", I, I, I); S = E.func("S", I, I)
        # V(j,i): first i terms at j; Q(N,i): first i terms summed; S(j): sum of c + V(.,n)
        j = E.int("j"); E.assume([j >= 0, V(j, 0) == 0, Q(j, 0) == 0, Q(j + 1, 0) == 0])
        E.induct("one more repetition adds one value of every term", n, lambda i: Q(j + 1, i) == Q(j, i) + V(j, i),
                 unfold=lambda i: And(Q(j + 1, i + 1) == Q(j + 1, i) + r(i) * PSUM(p(i), j + 1), Q(j, i + 1) == Q(j, i) + r(i) * PSUM(p(i), j), V(j, i + 1) == V(j, i) + r(i) * POW(j, p(i)), PSUM(p(i), j + 1) == PSUM(p(i), j) + POW(j, p(i)), r(i) * (PSUM(p(i), j) + POW(j, p(i))) == r(i) * PSUM(p(i), j) + r(i) * POW(j, p(i))))
        E.prove("step", Implies(And(S(j) == c * j + Q(j, n), S(j + 1) == S(j) + c + V(j, n)), S(j + 1) == c * (j + 1) + Q(j + 1, n)))
        # base: Q(0, n) == 0
        z = z3.IntVal(0); E.assume(Q(z, 0) == 0); E.induct("no repetition", n, lambda i: Q(z, i) == 0, unfold=lambda i: And(Q(z, i + 1) == Q(z, i) + r(i) * PSUM(p(i), z), PSUM(p(i), z) == 0, r(i) * 0 == 0))
class FactorVar(Contract):
    """term == k**power * rest, and rest does not contain k"""
    module = PS; qualname = "factor_var"; params = ["term", "k"]
    exts = {("isinstance", "Term"): lambda E, x: isinstance(x, Obj) and getattr(x.cls, "name", "") == "Term", ("new", "Term"): lambda E, c, a, k: Obj(E, c, {"vars": k["var_powers"], "coef": k["coefficient"]}),
            ("new", "Expression"): lambda E, c, a, k: Obj(E, c, {"terms": k["terms"], "const": zi(k["constant"]), "is_const": False}), ("VarAcc", "truth"): lambda E, o: o.fields["n"] > 0, ("builtin", "tuple"): lambda E, a, k: a[0] if a and isinstance(a[0], Obj) and a[0].cls == "VarAcc" else MISSING}
    def setup(self, E):
        def acc(E, o, name):
            if name != "append": raise Unsupported("list method " + name)
            def f(E, x):
                E.prove("the rest does not contain the factored variable", zi(x.fields["var"].fields["id"]) != E.ghost["kid"])
                E.setfield(o, "prod", o.fields["prod"] * AL.vpval(E, x)); E.setfield(o, "n", o.fields["n"] + 1)
            return f
        E.exts[("VarAcc", "attr")] = acc
        E.exts[("Variable", "eq")] = lambda E, a, b: isinstance(b, Obj) and zi(a.fields["id"]) == zi(b.fields["id"])
    def args(self, E):
        v = mk_vars(E, "u"); E.ghost["vs"] = v; E.ghost["kid"] = E.int("k_id"); n = zi(v.length)
        E.assume(Forall([I, I], lambda i, j: Implies(And(0 <= i, i < j, j < n), v.fid(i) != v.fid(j)), patterns=lambda i, j: [(v.fid(i), v.fid(j))]))
        E.assume(Forall([I], lambda i: v.fpw(i) >= 1))
        return NS(term=E.new(AE, "Term", vars=v, coef=E.int("coef")), k=E.new(AE, "Variable", id=E.ghost["kid"]))
    def old(self, E, a): E.assume(POW(SIG(E.ghost["kid"]), 0) == 1); return NS()
    def loops(self):
        def pre(E, env):
            n = 0
            for nm, v in list(env.fr.locals.items()):
                if isinstance(v, PyList) and not v.items: env.fr.locals[nm] = Obj(E, "VarAcc", {"prod": z3.IntVal(1), "n": z3.IntVal(0)}); n += 1
            if n != 1: raise Unsupported("result accumulator")
        def inv(E, env):
            v = E.ghost["vs"]; k = zi(env.extra["k"]); o = AL.acc_of(env, "VarAcc"); kp = zi(env.k_pow); kid = E.ghost["kid"]
            return [("factor times collected times the rest", (POW(SIG(kid), kp) * o.fields["prod"]) * v.R(k) == v.R(z3.IntVal(0))), ("nothing collected means a product of one", And(o.fields["n"] >= 0, Implies(o.fields["n"] == 0, o.fields["prod"] == 1))), ("power is zero until found", And(kp >= 0, Implies(kp != 0, And(*[zb(z3.BoolVal(True))])))),
                    ("not found yet means no power", Or(kp == 0, E.ghost["found"](k))), ("found once", Forall([I], lambda i: Implies(And(E.ghost["found"](k), i >= k, i < zi(v.length)), v.fid(i) != kid)))]
        def head(E, env):
            v = E.ghost["vs"]; k = zi(env.extra["k"]); E.assume(v.unf(k)); f = E.ghost["found"]; E.assume(f(k + 1) == Or(f(k), v.fid(k) == E.ghost["kid"]))
        def after(E, env, old):
            v = E.ghost["vs"]; k0, kp0, p0 = old; x = POW(SIG(v.fid(k0)), v.fpw(k0)); P = POW(SIG(E.ghost["kid"]), kp0)
            E.assume([(P * p0) * (x * v.R(k0 + 1)) == (P * (p0 * x)) * v.R(k0 + 1), (P * p0) * (x * v.R(k0 + 1)) == P * (x * p0) * v.R(k0 + 1)])
            E.assume(Implies(v.fid(k0) == E.ghost["kid"], x == POW(SIG(E.ghost["kid"]), v.fpw(k0))))
        def snap(E, env): return (zi(env.extra["k"]), zi(env.k_pow), AL.acc_of(env, "VarAcc").fields["prod"])
        def pre2(E, env): pre(E, env); f = E.func("found", I, B); E.ghost["found"] = f; E.assume(Not(f(0)))
        return [Loop("vars", inv, pre=pre2, head=head, after=after, snapshot=snap, havoc_local=lambda E, fr, n: fr.locals[n] if isinstance(fr.locals[n], Obj) else MISSING)]
    def post(self, E, old, a, r):
        if not (isinstance(r, tuple) and len(r) == 2): return [("a pair", False)]
        kp = zi(r[0]); v = a.term.fields["vars"]; P = POW(SIG(E.ghost["kid"]), kp); d = den(E, r[1]); c = zi(a.term.fields["coef"])
        accs = [o for o in E._oid_objs.values() if isinstance(o, Obj) and o.cls == "VarAcc"]
        if accs: p = accs[-1].fields["prod"]; E.assume([(P * p) * c == P * (c * p), (P * p) * 1 == P * p])
        return [("power times rest is the term", P * d == v.R(z3.IntVal(0)) * c), ("power not negative", kp >= 0)]
    def apply_call(self, E, f, argv):
        t = argv[0]; k = t.meta["k"]; p, r = E.ghost["TP"](k), E.ghost["TR"](k)
        E.prove("call factor_var: the summation variable", zi(argv[1].fields["id"]) == E.ghost["kid"])
        return (p, AL.fresh_like(E, r))
class SeriesSum(Contract):
    """sum of expr over k = 0..N-1"""
    module = PS; qualname = "series_sum"; params = ["expr", "k", "N"]
    exts = {("isinstance", "Fraction"): lambda E, x: False}
    def args(self, E):
        E.ghost["kid"] = E.int("k_id"); N = E.int("N"); E.assume(N >= 1); psum_facts(E, N); E.ghost["TP"] = E.func("tp", I, I); E.ghost["TR"] = E.func("tr", I, I); Q = E.func("Q", I, I); E.ghost["Q"] = Q; E.assume(Q(0) == 0)
        e = E.case(E.int("e"), mk_expr(E, "e"))
        if is_e(e):
            t = e.fields["terms"]; g0 = t.get
            def get(k): o = g0(k); o.meta["k"] = zi(k); return o
            t.get = get
        return NS(expr=e, k=E.new(AE, "Variable", id=E.ghost["kid"]), N=N)
    def raises(self, E, old, a, ex): return [("only the explicit refusal of high powers", ex.kind == "NotImplementedError" and is_e(a.expr))]
    def loops(self):
        def hv(E, fr, n):
            v = fr.locals[n]
            if is_e(v) or ((isinstance(v, int) or is_zint(v)) and not isinstance(v, bool)): return AL.fresh_like(E, E.int("tot"))
            if isinstance(v, Obj): return v
            return MISSING
        def inv(E, env):
            N = E.ghost["N"]; k = zi(env.extra["k"]); return [("constant part and the terms so far", den(E, env.total) == E.ghost["c"] * N + E.ghost["Q"](k))]
        def head(E, env):
            k = zi(env.extra["k"]); N = E.ghost["N"]; Q, p, r = E.ghost["Q"], E.ghost["TP"](k), E.ghost["TR"](k); E.assume([Q(k + 1) == Q(k) + r * PSUM(p, N), p >= 0])
        return [Loop("terms", inv, havoc_local=hv, head=head)]
    def old(self, E, a): E.ghost["N"] = zi(a.N); E.ghost["c"] = zi(a.expr.fields["const"]) if is_e(a.expr) else None; return NS()
    def post(self, E, old, a, r):
        N = zi(a.N)
        if not is_e(a.expr): return [("that many times the constant", den(E, r) == zi(a.expr) * N)]
        return [("sum of the series (closed forms of the power sums)", den(E, r) == E.ghost["c"] * N + E.ghost["Q"](zi(a.expr.fields["terms"].length)))]
    def apply_call(self, E, f, argv):
        e, k, N = argv; g = E.ghost.get("G")
        E.prove("call series_sum: sums the steps of one application over the repetitions", And(den(E, e) == g(SIG(zi(k.fields["id"]))), zi(k.fields["id"]) == E.ghost["kid"]))
        E.prove("call series_sum: over at least one repetition", zi(N) >= 1); E.ghost["sumN"] = zi(N)
        return E.ghost["SG"](zi(N))
# ---- tapes as count vectors -----------------------------------------------------------
def view(E, store, off, n, filt=False): return Obj(E, "BlkSeq", {"store": store, "off": off, "n": n, "filt": filt})
def mk_counts(E, name, sh, num=None):
    f = E.func(name, I, I); st = Obj(E, "Store", {"num": num or (lambda i: f(i))}); st.meta["kind"] = name
    return E.new("Macro.Tape", "Chain_Tape", dir=E.ghost.setdefault("dir", E.int("dir")), options=Opaque("o"), tape=PyList(E, [view(E, st, z3.IntVal(0), sh.n0), view(E, st, sh.n0, sh.n - sh.n0)])), st
def blk_attr(E, o, name):
    if name == "num":
        st, j = o.fields["store"], o.fields["j"]; sh = E.ghost["sh"]
        if st.meta["kind"] == "init" and E.branch(zb(sh.isv(j))):
            e = E.new(AE, "Expression", const=sh.mn(j)); e.meta["var"] = j; return e
        if E.branch(zb(sh.inf(j))): return INF
        return st.fields["num"](j)
    if name in ("symbol", "id"): return Opaque(name)
    return MISSING
def blk_set(E, o, name, v):
    if name != "num": raise Unsupported("block attribute " + name)
    st, j = o.fields["store"], o.fields["j"]; old = st.fields["num"]
    if isinstance(v, float):
        E.prove("an infinite count only in an infinite block", E.ghost["sh"].inf(j)); return True
    v = zi(v); E.prove("infinite blocks stay infinite", Or(Not(E.ghost["sh"].inf(j)), v == old(j)))
    E.note_write("field", st, "num"); st.fields["num"] = lambda i: Ite(i == j, v, old(i)); return True
def seq_iter(E, o):
    if o.fields["filt"]: raise Unsupported("filtered tape")
    return o.fields["n"], lambda k: Obj(E, "Blk", {"store": o.fields["store"], "j": o.fields["off"] + zi(k)})
def seq_binop(E, op, a, b):
    if not isinstance(op, ast.Add) or not all(isinstance(x, Obj) and x.cls == "BlkSeq" for x in (a, b)): raise Unsupported("tape operation")
    if a.fields["store"] is not b.fields["store"] or a.fields["filt"] or b.fields["filt"]: raise Unsupported("tape operation")
    E.prove("the two halves of one tape", And(a.fields["off"] == 0, b.fields["off"] == a.fields["n"])); return view(E, a.fields["store"], a.fields["off"], a.fields["n"] + b.fields["n"])
def seq_comp(E, o, e):
    g = e.generators[0]; n, at = seq_iter(E, o); fr = E.frames[-1]
    def ev(k, ex):
        nf = Frame(fr.func, dict(fr.locals), fr.module, fr.closure); E.frames.append(nf)
        try: E.assign(g.target, at(k)); return E.eval(ex)
        finally: E.frames.pop()
    if g.ifs:
        # keeps exactly the blocks with a non-zero count
        k = E.int("blk"); E.assume(And(k >= 0, k < n)); c = And(*[E.truth(ev(k, x)) for x in g.ifs]); j = o.fields["off"] + k; x = ev(k, e.elt)
        E.prove("keeps exactly the blocks that are not empty", zb(c) == Or(E.ghost["sh"].inf(j), o.fields["store"].fields["num"](j) != 0))
        E.prove("keeps the block itself", isinstance(x, Obj) and x.cls == "Blk" and x.fields["store"] is o.fields["store"] and z3.eq(z3.simplify(x.fields["j"]), z3.simplify(j)))
        return view(E, o.fields["store"], o.fields["off"], n, True)
    k = E.int("blk"); x = ev(k, e.elt)      # [block.num for block in ...]
    if isinstance(x, Obj): raise Unsupported("list of blocks")
    st = o.fields["store"]; num = st.fields["num"]
    E.prove("lists the counts", isinstance(x, float) or x == num(o.fields["off"] + k)); return SymSeq(E, lambda i: num(o.fields["off"] + zi(i)), n, "list")
class TapeCopy(Contract):
    module = "Macro.Tape"; qualname = "Chain_Tape.copy"; params = ["self"]; assumed = True; why = "verified for C02"
    def apply_call(self, E, f, argv):
        t = argv[0]; v = t.fields["tape"].items[0]; st = v.fields["store"]; sh = E.ghost["sh"]; r, _ = mk_counts(E, "cur", sh, st.fields["num"]); r.fields["dir"] = t.fields["dir"]; return r
def ex_attr(E, o, name):
    if "var" in o.meta:
        j = o.meta["var"]
        if name == "variable_restricted": return lambda E: Obj(E, "Var", {"j": j})
        raise Unsupported("rule block attribute " + name)
    if name == "variable" and "kid" in o.meta: return lambda E: E.new(AE, "Variable", id=o.meta["kid"])
    return MISSING
def vm_set(E, o, x, v):
    if not (isinstance(x, Obj) and x.cls == "Var"): raise Unsupported("map key")
    j = x.fields["j"]; h, g = o.fields["has"], o.fields["get"]; v = zi(v); E.note_write("field", o, "has"); E.note_write("field", o, "get")
    o.fields["has"] = lambda i: Or(i == j, h(i)); o.fields["get"] = lambda i: Ite(i == j, v, g(i))
def vm_get(E, o, x):
    j = x.fields["j"]
    if not E.branch(zb(o.fields["has"](j))): raise PyRaise("KeyError")
    return o.fields["get"](j)
def vm_havoc(E, o, f):
    if f == "has": h = E.func("has", I, B); o.fields["has"] = lambda i: h(i)
    else: g = E.func("get", I, I); o.fields["get"] = lambda i: g(i)
    return True
def new_vmap(E): return Obj(E, "VMap", {"has": lambda i: z3.BoolVal(False), "get": lambda i: z3.IntVal(0)})
def dictcomp(E, e):
    if len(e.generators) != 1 or e.generators[0].ifs: return MISSING
    it = E.eval(e.generators[0].iter); g = e.generators[0]
    if isinstance(it, Obj) and it.cls == "RLS":
        # {state: inf for state in rule.states_last_seen}
        fr = E.frames[-1]; nf = Frame(fr.func, dict(fr.locals), fr.module, fr.closure); E.frames.append(nf)
        try: q = E.int("q"); E.assign(g.target, q); k, v = E.eval(e.key), E.eval(e.value)
        finally: E.frames.pop()
        E.prove("every state of the rule, forever", is_zint(k) and v == INF and z3.eq(k, q)); return Obj(E, "InfStates", {})
    if not (isinstance(it, Obj) and it.cls == "VMap"): return MISSING
    fr = E.frames[-1]
    def at(j):
        nf = Frame(fr.func, dict(fr.locals), fr.module, fr.closure); E.frames.append(nf)
        try:
            x = Obj(E, "Var", {"j": j}); E.assign(g.target, x); kk = E.eval(e.key)
            if not (isinstance(kk, Obj) and kk.cls == "Var" and z3.eq(kk.fields["j"], j)): raise Unsupported("substitution key")
            return E.eval(e.value)
        finally: E.frames.pop()
    return Obj(E, "SubsMap", {"at": at, "has": it.fields["has"]})
# step counts of a rule: a*G + b*L(q) + d, as unevaluated combinations
def rs(E, g, l, q, d): return Obj(E, "RS", {"g": g, "l": l, "q": q, "d": d})
def rs_binop(E, op, a, b):
    s = 1 if isinstance(op, ast.Add) else -1
    if not isinstance(op, (ast.Add, ast.Sub)): raise Unsupported("step arithmetic")
    A = a if isinstance(a, Obj) and a.cls == "RS" else rs(E, 0, 0, None, den(E, a)); Bb = b if isinstance(b, Obj) and b.cls == "RS" else rs(E, 0, 0, None, den(E, b))
    x, y = A.fields, Bb.fields; return rs(E, x["g"] + s * y["g"], x["l"] + s * y["l"], x["q"] if x["q"] is not None else y["q"], x["d"] + s * y["d"])
class Subst(Contract):
    module = AE; qualname = "substitute"; params = ["x", "assignment"]; assumed = True; why = "substitution denotes evaluation at the substituted values: verified for C14"
    def apply_call(self, E, f, argv):
        x, m = argv; sh = E.ghost["sh"]
        if isinstance(x, int) or is_zint(x): return x
        if not (isinstance(x, Obj) and x.cls in ("RS", "Res")): raise Unsupported("substitution into %r" % (x,))
        j = E.int("j"); E.assume(And(j >= 0, j < sh.n, zb(sh.isv(j))))
        if isinstance(m, Obj) and m.cls == "SubsMap":
            E.prove("every variable of the rule is substituted", m.fields["has"](j)); v = m.fields["at"](j); T = SIG(E.ghost["kid"]) if is_e(v) else E.ghost["N"] - 1
            E.prove("substitutes the counts at the application in question", den(E, v) == sh.cur(j) - sh.mn(j) + sh.d(j) * T)
        elif isinstance(m, PyDict):      # general rules: the counts themselves, as config_fits_min assigned them
            T = filled(E, m); E.prove("every variable of the rule is substituted by its count", T is not None)
            if x.cls == "Res": return E.ghost["V"](x.fields["i"], T + 1)
        else: raise Unsupported("assignment")
        v = x.fields["g"] * E.ghost["G"](T) + x.fields["l"] * (E.ghost["L"](x.fields["q"], T) if x.fields["q"] is not None else 0) + x.fields["d"]
        if is_e(x) or T is not None and "kid" in E.ghost and z3.eq(T, SIG(E.ghost["kid"])): e = mk_expr(E, "st"); E.assume(den(E, e) == v); return e
        return v
class NewVar(Contract):
    module = AE; qualname = "NewVariableExpression"; params = []; assumed = True; why = "a fresh variable; VariableToExpression verified for C14"
    def apply_call(self, E, f, argv):
        kid = E.int("k_id"); e = mk_expr(E, "kk"); E.assume(den(E, e) == SIG(kid)); e.meta["kid"] = kid; E.ghost["kid"] = kid; return e
def rls_attr(E, o, name):
    if name in ("items",):
        n = E.int("nst"); E.assume(n >= 0); key = E.func("stkey", I, I); ix = E.func("stix", I, I)
        E.assume(Forall([I], lambda k: Implies(And(0 <= k, k < n), And(ix(key(k)) == k, E.ghost["HASL"](key(k)))), patterns=lambda k: [key(k)])); E.assume(Forall([I], lambda q: Implies(E.ghost["HASL"](q), And(0 <= ix(q), ix(q) < n, key(ix(q)) == q)), patterns=lambda q: [E.ghost["HASL"](q)]))
        s = SymSeq(E, lambda k: (key(k), rs(E, 0, 1, key(k), z3.IntVal(0))), n); s.order = (key, ix, n); E.ghost["rls"] = s; return lambda E: s
    return MISSING
def ls_set(E, o, k, v):
    h, g = o.fields["has"], o.fields["get"]; k, v = zi(k), zi(v); E.note_write("field", o, "has"); E.note_write("field", o, "get"); o.fields["has"] = lambda i: Or(i == k, h(i)); o.fields["get"] = lambda i: Ite(i == k, v, g(i))
def map_frame(cls):
    return lambda E, fr: [(v, f) for v in fr.locals.values() if isinstance(v, Obj) and v.cls == cls for f in ("has", "get")]
def seen_loop(N, spec):
    def pre(E, env):
        c = 0
        for nm, v in list(env.fr.locals.items()):
            if isinstance(v, PyDict) and not v.d and id(v) not in E.ghost.get("fill", {}): env.fr.locals[nm] = Obj(E, "LSM", {"has": lambda i: z3.BoolVal(False), "get": lambda i: z3.IntVal(0)}); E.ghost["lsm"] = env.fr.locals[nm]; c += 1
        if c != 1: raise Unsupported("last-seen map")
    def inv(E, env):
        key, ix, n = E.ghost["rls"].order; k = zi(env.extra["k"]); m = E.ghost.get("lsm")
        if m is None: return []
        H = E.ghost["HASL"]; return [("states recorded so far", Forall([I], lambda q: m.fields["has"](q) == And(H(q), ix(q) < k))), ("their last visits", Forall([I], lambda q: Implies(And(H(q), ix(q) < k), m.fields["get"](q) == spec(E, q))))]
    return Loop(N, inv, pre=pre, frame=map_frame("LSM"), match=lambda E, s, fr: "rls" in E.ghost, havoc_local=lambda E, fr, n: fr.locals[n] if isinstance(fr.locals[n], Obj) else Opaque(n) if isinstance(fr.locals[n], Opaque) else MISSING)
def lsm_res(E, r, comp, spec):
    F = r.fields; s = F["states_last_seen"]; H = E.ghost["HASL"]
    if not comp: return [("no last visits without steps", s is None)]
    if isinstance(s, PyDict) and not s.d: q = E.int("q"); return [("last visits: none to record", Not(H(q)))]
    if not (isinstance(s, Obj) and s.cls == "LSM"): return [("last visits recorded", False)]
    return [("last visit of every state", Forall([I], lambda q: And(s.fields["has"](q) == H(q), Implies(H(q), s.fields["get"](q) == spec(E, q)))))]
def reqs_add(E, op, a, b):
    if not (isinstance(b, Obj) and b.cls == "Vals"): raise Unsupported("requirements")
    return Obj(E, "Reqs", {"added": a.fields["added"] + (b.fields["m"],)})
EXTS = {("Blk", "attr"): blk_attr, ("Blk", "setattr"): blk_set, ("BlkSeq", "iter"): seq_iter, ("binop", "BlkSeq"): seq_binop, ("BlkSeq", "comp"): seq_comp, ("Expression", "attr"): ex_attr, ("VMap", "setitem"): vm_set, ("VMap", "getitem"): vm_get, ("VMap", "havoc"): vm_havoc,
        ("dictcomp", "*"): dictcomp, ("binop", "RS"): rs_binop, ("RLS", "attr"): rls_attr, ("RLS", "truth"): lambda E, o: E.ghost["someL"], ("LSM", "setitem"): ls_set, ("LSM", "havoc"): vm_havoc, ("Store", "havoc"): lambda E, o, f: (lambda g: o.fields.__setitem__("num", lambda i: g(i)) or True)(E.func("num", I, I)),
        ("InfStates", "truth"): lambda E, o: True, ("VMap", "attr"): lambda E, o, n: (lambda E: Obj(E, "Vals", {"m": Obj(E, "VMap", dict(o.fields))})) if n == "values" else MISSING, ("Vals", "list"): lambda E, o: o, ("binop", "Reqs"): reqs_add, ("Reqs", "attr"): lambda E, o, n: (lambda E, x: E.setfield(o, "added", reqs_add(E, None, o, x).fields["added"])) if n == "extend" else MISSING}
class Sh: pass
def mk_rule(E, comp):
    sh = Sh(); sh.n0, sh.n = E.int("n0"), E.int("n"); isv, inf, mn, d, cur = E.func("isvar", I, B), E.func("isinf", I, B), E.func("minimum", I, I), E.func("delta", I, I), E.func("cur", I, I)
    sh.isv, sh.inf, sh.mn, sh.d, sh.cur = isv, inf, mn, d, cur; E.ghost["sh"] = sh; E.assume([sh.n0 >= 0, sh.n >= sh.n0])
    E.assume(Forall([I], lambda j: And(Implies(isv(j), Not(inf(j))), Implies(And(Not(isv(j)), Not(inf(j))), d(j) == 0)), patterns=lambda j: [isv(j)]))
    G, L, SG, H = E.func("steps_of", I, I), E.func("last_of", I, I, I), E.func("steps_sum", I, I), E.func("seen", I, B); E.ghost.update(G=G, L=L, SG=SG, HASL=H, someL=E.bool("some_state"))
    q = E.int("q"); E.assume(Forall([I], lambda q: Implies(H(q), E.ghost["someL"]), patterns=lambda q: [H(q)]))
    return sh
class ApplyDiff(Contract):
    """as many applications as every minimum allows, all at once; or forever"""
    module = PS; qualname = "Proof_System.apply_diff_rule"; params = ["self", "rule", "start_config"]; feas_ms = 60; timeout_ms = 15000; budget_s = 400
    def args(self, E):
        comp = E.case(True, False); sh = mk_rule(E, comp); it, _ = mk_counts(E, "init", sh); dt, _ = mk_counts(E, "diff", sh, lambda j: sh.d(j)); ct, st = mk_counts(E, "cur", sh, lambda j: sh.cur(j))
        rule = E.new(PS, "Diff_Rule", initial_tape=it, diff_tape=dt, num_steps=rs(E, 1, 0, None, z3.IntVal(0)), states_last_seen=Obj(E, "RLS", {}) if comp else None, is_meta_rule=False, initial_state=E.int("st"), num_loops=1, num_uses=0, has_collatz_decrease=E.bool("cd"))
        fz = E.case(False, True); p = E.new(PS, "Proof_System", verbose=False, compute_steps=comp, verbose_prefix="", frozen=fz, requirements=Obj(E, "Reqs", {"added": ()}) if fz else MISSING); E.ghost.update(comp=comp, fz=fz)
        return NS(self=p, rule=rule, start_config=(E.int("state"), ct, E.int("step"), E.int("loop")))
    def modifies(self, E, a): return [(a.self, "requirements")]
    def loops(self):
        def flat(E, env): return env.it0
        def pre(E, env):
            for nm, v in list(env.fr.locals.items()):
                if isinstance(v, PyDict) and not v.d: env.fr.locals[nm] = new_vmap(E)
            E.ghost.pop("hv", None)
        def off(E, env):
            sh = E.ghost["sh"]; d = env.fr.locals.get((E.rename or {}).get("dir", "dir"))
            if d not in (0, 1): raise Unbound("dir")
            return z3.IntVal(0) if d == 0 else sh.n0
        def hv(E, fr, n):
            v = fr.locals[n]
            if v is None or (not isinstance(v, bool) and (isinstance(v, int) or is_zint(v))):
                if "hv" not in E.ghost: E.ghost["hv"] = E.choose(2)
                return None if E.ghost["hv"] == 0 else E.int(n)
            if isinstance(v, bool) or is_zbool(v): return MISSING
            if isinstance(v, Obj): return v
            return MISSING
        def maps(E, env):
            ms = [v for v in env.fr.locals.values() if isinstance(v, Obj) and v.cls == "VMap"]
            if len(ms) != 2: raise Unsupported("value maps")
            return ms
        def inv1(E, env):
            sh = E.ghost["sh"]; J = off(E, env) + zi(env.extra["k"]); N, ld, li, lf = env.num_reps, env.limit_dir, env.limit_index, env.limit_final; iv, dv = env.init_value, env.delta_value
            if isinstance(iv, PyDict): out = []
            else: out = [("collected variables", Forall([I], lambda j: And(iv.fields["has"](j) == And(j >= 0, j < J, sh.isv(j)), dv.fields["has"](j) == And(j >= 0, j < J, sh.isv(j))), patterns=lambda j: [sh.isv(j)])), ("their excess over the minimum and their change", Forall([I], lambda j: Implies(And(j >= 0, j < J, sh.isv(j)), And(iv.fields["get"](j) == sh.cur(j) - sh.mn(j), dv.fields["get"](j) == sh.d(j))), patterns=lambda j: [sh.isv(j)]))]
            rng = lambda j: And(j >= 0, j < J, sh.isv(j))
            out.append(("all so far reach their minimum", Forall([I], lambda j: Implies(rng(j), sh.cur(j) >= sh.mn(j)), patterns=lambda j: [sh.isv(j)])))
            if N is None: return out + [("nothing shrinks so far", Forall([I], lambda j: Implies(rng(j), sh.d(j) >= 0), patterns=lambda j: [sh.d(j)]))]
            if ld is None or li is None or lf is None: return out + [("limiting block recorded", False)]
            N = zi(N); lim = zi(li) + Ite(zi(ld) == 0, 0, sh.n0)
            return out + [("at least one application", N >= 1), ("limiting block", And(zi(ld) >= 0, zi(ld) <= 1, lim >= Ite(zi(ld) == 0, 0, sh.n0), Implies(zi(ld) == 0, lim < sh.n0), rng(lim), sh.d(lim) < 0, zi(lf) == sh.cur(lim) + N * sh.d(lim), zi(lf) < sh.mn(lim))),
                          ("every application so far allowed is", Forall([I], lambda j: Implies(And(rng(j), sh.d(j) < 0), sh.cur(j) + (N - 1) * sh.d(j) >= sh.mn(j)), patterns=lambda j: [sh.d(j)]))]
        def head1(E, env): pass
        def snap1(E, env): return env.num_reps
        def after1(E, env, old):
            sh = E.ghost["sh"]; N = env.num_reps; J = off(E, env) + zi(env.extra["k"]) - 1
            if N is not None:
                N = zi(N); x = sh.d(J); E.assume([N * (-x) == -(N * x), (N - 1) * (-x) == -((N - 1) * x), (N - 1) * x == N * x - x])
                for o in ([zi(old)] if old is not None else []):
                    E.assume(Forall([I], lambda j: Implies(And(N <= o, sh.d(j) <= 0), (N - 1) * sh.d(j) >= (o - 1) * sh.d(j)), patterns=lambda j: [sh.d(j)]))
                    E.assume([(o - 1) * x == o * x - x, Implies(And(o <= N, x <= 0), (o - 1) * x >= (N - 1) * x)])
                    # the candidate's own repetitions, when it was not the smallest
                    for c in [v for k, v in env.fr.locals.items() if is_zint(v)]: E.assume([Implies(And(o <= c, x <= 0), (o - 1) * x >= (c - 1) * x), (c - 1) * (-x) == -((c - 1) * x)])
        def exit1(E, env):
            if env.fr.locals.get((E.rename or {}).get("dir", "dir")) == 1: E.ghost["N"] = env.num_reps
        def inv2(E, env):
            sh = E.ghost["sh"]; N = zi(env.num_reps); st = E.ghost["st2"]; d = env.fr.locals.get("dir"); J = off(E, env) + zi(env.extra["k"]); f = st.fields["num"]
            return [("counts updated so far", Forall([I], lambda j: Implies(And(j >= 0, j < sh.n), f(j) == Ite(And(j < J, Not(sh.inf(j))), sh.cur(j) + N * sh.d(j), sh.cur(j)))))]
        def pre2(E, env):
            ts = [v for v in env.fr.locals.values() if isinstance(v, Obj) and getattr(v.cls, "name", "") == "Chain_Tape"]; E.ghost["st2"] = ts[-1].fields["tape"].items[env.fr.locals["dir"]].fields["store"]
        keep = lambda E, fr, n: fr.locals[n] if isinstance(fr.locals[n], Obj) else MISSING
        first = Loop("blocks", inv1, pre=pre, frame=map_frame("VMap"), havoc_local=hv, after=after1, snapshot=snap1, exit=exit1)
        second = Loop("update", inv2, pre=pre2, frame=lambda E, fr: [(E.ghost["st2"], "num")], havoc_local=keep, match=lambda E, s, fr: "N" in E.ghost)
        return [first, seen_loop("seen", lambda E, q: E.ghost["SG"](E.ghost["N"]) - (E.ghost["G"](E.ghost["N"] - 1) - E.ghost["L"](q, E.ghost["N"] - 1))), second]
    def post(self, E, old, a, r):
        sh = E.ghost["sh"]; comp = E.ghost["comp"]
        if not (isinstance(r, tuple) and len(r) == 2): return [("success flag and result", False)]
        ok, res = r
        if ok is False:
            j = E.ghost.get("low"); w = E.int("w"); E.ghost["w"] = w
            return [("refused only below a minimum", E.ghost.get("N", 0) is not None and self.below(E, sh))]
        pr, large = res; F = pr.fields; allv = lambda body: Forall([I], lambda j: Implies(And(j >= 0, j < sh.n, sh.isv(j)), body(j)))
        if F["condition"] == "Inf_Repeat": return [("every minimum is reached", allv(lambda j: sh.cur(j) >= sh.mn(j))), ("and no count ever shrinks", allv(lambda j: sh.d(j) >= 0))]
        if F["condition"] != "Apply_Rule": return [("a known condition", False)]
        N = E.ghost["N"]; t = F["new_tape"]; vs = t.fields["tape"].items; st = vs[0].fields["store"]; f = st.fields["num"]
        E.assume(Forall([I], lambda j: And(Implies(And(N >= 1, sh.d(j) >= 0), (N - 1) * sh.d(j) >= 0)), patterns=lambda j: [sh.d(j)]))
        out = [("at least one application", N >= 1), ("allowed to the last application", allv(lambda j: sh.cur(j) + (N - 1) * sh.d(j) >= sh.mn(j))),
               ("not one more", Not(zb(Forall([I], lambda j: Implies(And(j >= 0, j < sh.n, sh.isv(j)), sh.cur(j) + N * sh.d(j) >= sh.mn(j))).as_z3(E)))),
               ("every count changed by that many applications", Forall([I], lambda j: Implies(And(j >= 0, j < sh.n), f(j) == Ite(sh.inf(j), sh.cur(j), sh.cur(j) + N * sh.d(j))))),
               ("both halves of the new tape, empty blocks removed", And(all(v.fields["filt"] and v.fields["store"] is st for v in vs), vs[0].fields["off"] == 0, vs[0].fields["n"] == sh.n0, vs[1].fields["off"] == sh.n0, vs[1].fields["n"] == sh.n - sh.n0)), ("same direction", t.fields["dir"] is E.ghost["dir"]), ("a new tape", t is not a.start_config[1] and st is not a.start_config[1].fields["tape"].items[0].fields["store"])]
        if comp: out.append(("steps of all applications", den(E, F["num_base_steps"]) == E.ghost["SG"](N)))
        if E.ghost["fz"]:
            q = a.self.fields["requirements"]; ms = q.fields["added"] if isinstance(q, Obj) and q.cls == "Reqs" else ()
            out.append(("inside a proof: what every variable block must satisfy is noted", allv(lambda j: Or(*[And(m.fields["has"](j), m.fields["get"](j) == sh.cur(j) - sh.mn(j)) for m in ms]))))
        return out + lsm_res(E, pr, comp, lambda E, q: E.ghost["SG"](N) - (E.ghost["G"](N - 1) - E.ghost["L"](q, N - 1)))
    def below(self, E, sh): return Not(zb(Forall([I], lambda j: Implies(And(j >= 0, j < sh.n, sh.isv(j)), sh.cur(j) >= sh.mn(j))).as_z3(E)))
class Fits(Contract):
    """every variable block reaches its minimum; the assignment maps it to its count"""
    module = PS; qualname = "config_fits_min"; params = ["var_list", "min_list", "current_list", "assignment"]
    def args(self, E):
        sh = mk_rule(E, False); n = sh.n
        def v(j): return Obj(E, "Var", {"j": j}) if E.branch(zb(sh.isv(j))) else None
        return NS(var_list=SymSeq(E, v, n), min_list=SymSeq(E, lambda j: sh.mn(j), n), current_list=SymSeq(E, lambda j: sh.cur(j), n), assignment=E.case(None, new_vmap(E)))
    def modifies(self, E, a): return [] if a.assignment is None else [(a.assignment, "has"), (a.assignment, "get")]
    def loops(self):
        def inv(E, env):
            sh = E.ghost["sh"]; k = zi(env.extra["k"]); m = env.assignment; rng = lambda j: And(j >= 0, j < k, sh.isv(j))
            out = [("all so far reach their minimum", Forall([I], lambda j: Implies(rng(j), sh.cur(j) >= sh.mn(j)), patterns=lambda j: [sh.isv(j)]))]
            if m is not None: out += [("assigned so far", Forall([I], lambda j: And(m.fields["has"](j) == rng(j), Implies(rng(j), m.fields["get"](j) == sh.cur(j))), patterns=lambda j: [sh.isv(j)]))]
            return out
        return [Loop("vars", inv, havoc_local=lambda E, fr, n: fr.locals[n] if isinstance(fr.locals[n], Obj) or fr.locals[n] is None else MISSING)]
    def post(self, E, old, a, r):
        sh = E.ghost["sh"]; rng = lambda j: And(j >= 0, j < sh.n, sh.isv(j)); al = Forall([I], lambda j: Implies(rng(j), sh.cur(j) >= sh.mn(j)))
        if not isinstance(r, bool): raise Unsupported("result")
        if not r: return [("false only below a minimum", Not(zb(al.as_z3(E))))]
        out = [("true only if every minimum is reached", al)]; m = a.assignment
        if m is not None: out.append(("assigns every variable its count", Forall([I], lambda j: Implies(rng(j), And(m.fields["has"](j), m.fields["get"](j) == sh.cur(j))))))
        return out
    def apply_call(self, E, f, argv):
        a = NS(**dict(zip(self.params, list(argv) + [None] * (4 - len(argv))))); g = E.ghost; sh = g["sh"]; V, k = g["V"], g["k"]; rng = lambda j: And(j >= 0, j < sh.n, sh.isv(j))
        E.prove("call config_fits_min: the rule's variables and minima", And(a.var_list is g["rule"].fields["var_list"], a.min_list is g["rule"].fields["min_list"]))
        if not isinstance(a.current_list, SymSeq): raise Unsupported("counts")
        E.prove("call config_fits_min: the counts at hand", And(zi(a.current_list.length) == sh.n, Forall([I], lambda j: Implies(And(j >= 0, j < sh.n), zi(a.current_list.get(j)) == V(j, k))).as_z3(E)))
        if a.assignment is not None:
            if not (isinstance(a.assignment, PyDict) and not a.assignment.d): raise Unsupported("assignment")
            g["fill"][id(a.assignment)] = (a.assignment, None)
        fits = Forall([I], lambda j: Implies(rng(j), V(j, k) >= sh.mn(j)), patterns=lambda j: [V(j, k)])
        if E.choose(2) == 0:
            j = E.int("low"); E.assume(And(rng(j), V(j, k) < sh.mn(j))); g["low"] = k; return False
        E.assume(fits)
        if a.assignment is not None: g["fill"][id(a.assignment)] = (a.assignment, k)
        return True
def filled(E, m):
    r = E.ghost["fill"].get(id(m)); r = r[1] if r else None; return r
class ApplyGeneral(Contract):
    """one application after the other, as long as every minimum is reached and the limit allows.  V(j, k): the count of block j after k
    applications; the rule's results, evaluated at the counts after k applications, are the counts after k + 1."""
    module = PS; qualname = "Proof_System.apply_general_rule"; params = ["self", "rule", "start_config"]; feas_ms = 60; timeout_ms = 15000; budget_s = 300
    def args(self, E):
        comp = E.case(True, False); sh = mk_rule(E, comp); ct, st = mk_counts(E, "cur", sh, lambda j: sh.cur(j)); g = E.ghost; V = E.func("count_after", I, I, I); n = sh.n
        E.assume(Forall([I], lambda j: V(j, z3.IntVal(0)) == sh.cur(j), patterns=lambda j: [sh.cur(j)])); E.assume(Forall([I, I], lambda j, k: Implies(sh.inf(j), V(j, k) == sh.cur(j)), patterns=lambda j, k: [V(j, k)]))
        SG, G = g["SG"], g["G"]; E.assume(SG(z3.IntVal(0)) == 0); E.assume(Forall([I], lambda k: Implies(k >= 0, SG(k + 1) == SG(k) + G(k)), patterns=lambda k: [G(k)]))
        rule = E.new(PS, "General_Rule", var_list=SymSeq(E, lambda j: Obj(E, "Var", {"j": j}), n), min_list=SymSeq(E, lambda j: sh.mn(j), n), result_list=SymSeq(E, lambda i: Obj(E, "Res", {"i": zi(i)}), n, "list"), num_steps=rs(E, 1, 0, None, z3.IntVal(0)), states_last_seen=Obj(E, "RLS", {}) if comp else None, infinite=E.bool("never shrinks"), num_loops=1, num_uses=0)
        p = E.new(PS, "Proof_System", verbose=False, compute_steps=comp, verbose_prefix="", max_num_reps=E.int("limit")); g.update(comp=comp, V=V, k=z3.IntVal(0), fill={}, rule=rule, ran=False); return NS(self=p, rule=rule, start_config=(E.int("state"), ct, E.int("step"), E.int("loop")))
    def pre(self, E, a): return [("a limit on applications", zi(a.self.fields["max_num_reps"]) >= 1)]
    def loops(self):
        def inv(E, env):
            g = E.ghost; sh = g["sh"]; V = g["V"]; k = zi(env.num_reps); c = env.current_list
            if not isinstance(c, SymSeq): raise Unsupported("counts")
            out = [("applications so far", And(k >= 0, k <= zi(env.self.fields["max_num_reps"]))), ("the counts after them", And(zi(c.length) == sh.n, Forall([I], lambda j: Implies(And(j >= 0, j < sh.n), zi(c.get(j)) == V(j, k)), patterns=lambda j: [V(j, k)]).as_z3(E))), ("every one was allowed", Forall([I, I], lambda j, t: Implies(And(t >= 0, t < k, j >= 0, j < sh.n, sh.isv(j)), V(j, t) >= sh.mn(j)), patterns=lambda j, t: [V(j, t)])),
                   ("success once applied", zb(E.truth(env.success)) == (k > 0)), ("steps so far", den(E, env.diff_steps) == (g["SG"](k) if g["comp"] else 0)), ("a fresh assignment", isinstance(env.assignment, PyDict) and not env.assignment.d and id(env.assignment) not in g["fill"])]
            la = env.fr.locals.get("last_assignment", MISSING)
            if la is not MISSING: t = filled(E, la) if isinstance(la, PyDict) else None; out.append(("counts before the last application", Implies(k > 0, t is not None and zi(t) == k - 1) if t is not None else Not(k > 0)))
            else: out.append(("counts before the last application", k == 0))
            return out
        def head(E, env): E.ghost.update(k=zi(env.num_reps), ran=True)
        def prev(E): d = PyDict(E); E.ghost["fill"][id(d)] = (d, E.int("before")); return d
        def hv(E, fr, n):
            v = fr.locals[n]
            if isinstance(v, SymSeq): f = E.func("counts", I, I); return SymSeq(E, lambda i: f(zi(i)), E.ghost["sh"].n, "list")
            if isinstance(v, PyDict): return PyDict(E) if n == "assignment" else prev(E)
            return MISSING
        def bu(E, fr, n, k): return prev(E) if n == "last_assignment" else MISSING
        def inv2(E, env):
            g = E.ghost; sh = g["sh"]; st = g["st2"]; k = zi(env.extra["k"]); f = st.fields["num"]; V = g["V"]; N = g["k"]; return [("counts set so far", Forall([I], lambda j: Implies(And(j >= 0, j < sh.n), f(j) == Ite(j < k, V(j, N), sh.cur(j)))))]
        def pre2(E, env): ts = [v for v in env.fr.locals.values() if isinstance(v, Obj) and getattr(v.cls, "name", "") == "Chain_Tape"]; E.ghost["st2"] = ts[-1].fields["tape"].items[0].fields["store"]
        keep = lambda E, fr, n: fr.locals[n] if isinstance(fr.locals[n], Obj) else MISSING
        return [Loop("applications", inv, head=head, havoc_local=hv, bind_unbound=bu, match=lambda E, s, fr: isinstance(s, ast.While)), Loop("update", inv2, pre=pre2, frame=lambda E, fr: [(E.ghost["st2"], "num")], havoc_local=keep, match=lambda E, s, fr: "rls" not in E.ghost),
                seen_loop("seen", lambda E, q: E.ghost["SG"](E.ghost["k"]) - (E.ghost["G"](E.ghost["k"] - 1) - E.ghost["L"](q, E.ghost["k"] - 1)))]
    def post(self, E, old, a, r):
        g = E.ghost; sh = g["sh"]; V, k = g["V"], g["k"]
        if not (isinstance(r, tuple) and len(r) == 2): return [("success flag and result", False)]
        ok, res = r; fits = lambda t: Forall([I], lambda j: Implies(And(j >= 0, j < sh.n, sh.isv(j)), V(j, t) >= sh.mn(j))).as_z3(E)
        if ok is False: return [("refused only below a minimum", Not(zb(fits(z3.IntVal(0)))))]
        pr, large = res; F = pr.fields
        if F["condition"] == "Inf_Repeat": return [("forever only with a rule that never shrinks a count, or when the counts repeat", Or(And(zb(a.rule.fields["infinite"]), fits(z3.IntVal(0))), And(fits(k), Forall([I], lambda j: Implies(And(j >= 0, j < sh.n), V(j, k + 1) == V(j, k))).as_z3(E))))]
        if F["condition"] != "Apply_Rule": return [("a known condition", False)]
        t = F["new_tape"]; vs = t.fields["tape"].items; st = vs[0].fields["store"]; f = st.fields["num"]
        out = [("at least one application", k >= 1), ("every application allowed", Forall([I, I], lambda j, t: Implies(And(t >= 0, t < k, j >= 0, j < sh.n, sh.isv(j)), V(j, t) >= sh.mn(j)))), ("the counts after that many applications", Forall([I], lambda j: Implies(And(j >= 0, j < sh.n), f(j) == V(j, k)))),
               ("both halves of the new tape, empty blocks removed", And(all(v.fields["filt"] and v.fields["store"] is st for v in vs), vs[0].fields["off"] == 0, vs[0].fields["n"] == sh.n0, vs[1].fields["off"] == sh.n0, vs[1].fields["n"] == sh.n - sh.n0)), ("same direction", t.fields["dir"] is g["dir"]), ("a new tape", t is not a.start_config[1])]
        if g["comp"]: out.append(("steps of all applications", den(E, F["num_base_steps"]) == g["SG"](k)))
        if g["comp"] and F["states_last_seen"] is None: return out + [("visits left out only when the rule has none", Not(g["someL"]))]
        return out + lsm_res(E, pr, g["comp"], lambda E, q: g["SG"](k) - (g["G"](k - 1) - g["L"](q, k - 1)))
def fn_attr(E, o, name):
    g = E.ghost; j = o.fields["j"]; T = g["V"]; st = lambda E, x, what: E.prove("call %s: of the block's own count" % what, zi(x) == g["sh"].cur(j))
    if name == "is_decreasing": return g["dec"](j)
    if name == "max_reps":
        def mr(E, start):
            st(E, start, "max_reps"); E.prove("call max_reps: of a shrinking block", g["dec"](j)); R = g["R"](j); return (R, T(j, R))
        return mr
    if name == "apply_rep":
        def ar(E, start, n): st(E, start, "apply_rep"); E.prove("call apply_rep: repetitions", zi(n) >= 0); return T(j, zi(n))
        return ar
    return MISSING
class ApplyLinear(Contract):
    """all applications at once: every block by its own function, as often as the first block to run out allows.  V(j, k): the count of block j
    after k single changes; what the functions of Rule_Func promise (MaxReps, AddRep, SubRep, MultMin, MultRep) is assumed of them."""
    module = PS; qualname = "Proof_System.apply_linear_rule"; params = ["self", "rule", "start_config"]; feas_ms = 60; timeout_ms = 15000; budget_s = 300
    def args(self, E):
        sh = mk_rule(E, False); ct, st = mk_counts(E, "cur", sh, lambda j: sh.cur(j)); g = E.ghost; V = E.func("count_after", I, I, I); dec, R = E.func("shrinks", I, B), E.func("most_reps", I, I); n = sh.n; ok = lambda j: And(sh.isv(j), sh.cur(j) >= sh.mn(j))
        E.assume(Forall([I], lambda j: V(j, z3.IntVal(0)) == sh.cur(j), patterns=lambda j: [sh.cur(j)]))
        E.assume(Forall([I], lambda j: Implies(And(ok(j), dec(j)), And(R(j) >= 1, V(j, R(j)) < sh.mn(j))), patterns=lambda j: [R(j)])); E.assume(Forall([I, I], lambda j, k: Implies(And(ok(j), k >= 0, Or(Not(dec(j)), k < R(j))), V(j, k) >= sh.mn(j)), patterns=lambda j, k: [V(j, k)]))
        inf = E.bool("infinite"); E.assume(inf == Forall([I], lambda j: Implies(And(j >= 0, j < n, sh.isv(j)), Not(dec(j)))).as_z3(E))
        rule = E.new(PS, "Linear_Rule", var_list=SymSeq(E, lambda j: Obj(E, "Var", {"j": zi(j)}), n), min_list=SymSeq(E, lambda j: sh.mn(zi(j)), n), func_list=SymSeq(E, lambda j: Obj(E, "Fn", {"j": zi(j)}), n), gen_rule=Opaque("general rule"), num_steps=Opaque("s"), states_last_seen=None, infinite=inf, num_loops=1, num_uses=0, has_collatz_decrease=E.bool("cd"))
        fz = E.case(False, True); lin = E.case(True, False); g.update({} if lin else dict(calls=[], make=token)); p = E.new(PS, "Proof_System", verbose=False, compute_steps=False, verbose_prefix="", exp_linear_rules=lin, exp_meta_linear_rules=E.case(True, False), frozen=fz, requirements=Obj(E, "Reqs", {"added": ()}) if fz else MISSING)
        g.update(V=V, k=z3.IntVal(0), fill={}, rule=rule, dec=dec, R=R, fz=fz); return NS(self=p, rule=rule, start_config=(E.int("state"), ct, E.int("step"), E.int("loop")))
    def modifies(self, E, a): return [(a.self, "requirements")]
    def loops(self):
        def hv(E, fr, n):
            v = fr.locals[n]
            if v is None or (not isinstance(v, bool) and (isinstance(v, int) or is_zint(v))):
                if "hv" not in E.ghost: E.ghost["hv"] = E.choose(2)
                return None if E.ghost["hv"] == 0 else E.int(n)
            return v if isinstance(v, Obj) else MISSING
        def inv(E, env):
            g = E.ghost; sh = g["sh"]; k = zi(env.extra["k"]); N, li, lf = env.num_reps, env.limit_index, env.limit_final; rng = lambda j: And(j >= 0, j < k, sh.isv(j), g["dec"](j))
            if N is None: return [("nothing shrinks so far", Forall([I], lambda j: Not(rng(j)), patterns=lambda j: [g["dec"](j)]))]
            if li is None or lf is None: return [("limiting block recorded", False)]
            N, li, lf = zi(N), zi(li), zi(lf); return [("at least one application", N >= 1), ("limiting block", And(rng(li), N == g["R"](li), lf == g["V"](li, N))), ("no block so far allows fewer", Forall([I], lambda j: Implies(rng(j), N <= g["R"](j)), patterns=lambda j: [g["dec"](j)]))]
        def done(E, env): E.ghost["N"] = env.num_reps
        def pre2(E, env): ts = [v for v in env.fr.locals.values() if isinstance(v, Obj) and getattr(v.cls, "name", "") == "Chain_Tape"]; E.ghost["st2"] = ts[-1].fields["tape"].items[0].fields["store"]
        def inv2(E, env):
            g = E.ghost; sh = g["sh"]; k = zi(env.extra["k"]); f = g["st2"].fields["num"]; N = zi(env.num_reps); return [("counts set so far", Forall([I], lambda j: Implies(And(j >= 0, j < sh.n), f(j) == Ite(And(j < k, sh.isv(j)), g["V"](j, N), sh.cur(j)))))]
        keep = lambda E, fr, n: fr.locals[n] if isinstance(fr.locals[n], Obj) else MISSING
        return [Loop("limit", inv, havoc_local=hv, exit=done, match=lambda E, s, fr: "N" not in E.ghost), Loop("update", inv2, pre=pre2, frame=lambda E, fr: [(E.ghost["st2"], "num")], havoc_local=keep)]
    def post(self, E, old, a, r):
        g = E.ghost; sh = g["sh"]; V = g["V"]; allv = lambda body: Forall([I], lambda j: Implies(And(j >= 0, j < sh.n, sh.isv(j)), body(j)))
        if not (isinstance(r, tuple) and len(r) == 2): return [("success flag and result", False)]
        if not a.self.fields["exp_linear_rules"]: return [("without the option: the general rule, at this configuration", len(g["calls"]) == 1 and g["calls"][0][0] == "general" and g["calls"][0][1] is a.rule.fields["gen_rule"] and same_cfg(g["calls"][0][2], a.start_config)), ("and its result", same_cfg(r, g["ret"]))]
        ok, res = r; fits = allv(lambda j: sh.cur(j) >= sh.mn(j))
        if ok is False: return [("refused only below a minimum", Not(zb(fits.as_z3(E))))]
        pr, meta = res; F = pr.fields
        if F["condition"] == "Inf_Repeat": return [("every minimum is reached", fits), ("and no count ever falls below it", Forall([I, I], lambda j, k: Implies(And(j >= 0, j < sh.n, sh.isv(j), k >= 0), V(j, k) >= sh.mn(j))))]
        if F["condition"] != "Apply_Rule": return [("a known condition", False)]
        N = g["N"]
        if N is None: return [("a number of applications", False)]
        N = zi(N); t = F["new_tape"]; vs = t.fields["tape"].items; st = vs[0].fields["store"]; f = st.fields["num"]
        out = [("at least one application", N >= 1), ("every application allowed", Forall([I, I], lambda j, k: Implies(And(j >= 0, j < sh.n, sh.isv(j), k >= 0, k < N), V(j, k) >= sh.mn(j)))), ("not one more", Not(zb(allv(lambda j: V(j, N) >= sh.mn(j)).as_z3(E)))),
               ("the counts after that many applications", Forall([I], lambda j: Implies(And(j >= 0, j < sh.n), f(j) == Ite(sh.isv(j), V(j, N), sh.cur(j))))), ("both halves of the new tape", And(all(v.fields["store"] is st for v in vs), vs[0].fields["off"] == 0, vs[0].fields["n"] == sh.n0, vs[1].fields["off"] == sh.n0, vs[1].fields["n"] == sh.n - sh.n0)), ("same direction", t.fields["dir"] is g["dir"]), ("a new tape", t is not a.start_config[1] and st is not a.start_config[1].fields["tape"].items[0].fields["store"])]
        if g["fz"]:
            q = a.self.fields["requirements"]; ms = q.fields["added"] if isinstance(q, Obj) and q.cls == "Reqs" else ()
            out.append(("inside a proof: what every variable block must satisfy is noted", allv(lambda j: Or(*[And(zi(m.length) == sh.n, zb(m.cond(j)), zi(m.elt(j)) == sh.cur(j) - sh.mn(j)) for m in ms]))))
        return out
def lin_reqs(E, op, a, b):
    if not isinstance(op, ast.Add) or not isinstance(b, (FilterSeq, SymSeq)): raise Unsupported("requirements")
    if isinstance(b, SymSeq): b0 = b; b = FilterSeq(lambda i: z3.BoolVal(True), b0.get, b0.length)
    return Obj(E, "Reqs", {"added": a.fields["added"] + (b,)})
ApplyLinear.exts = {("Fn", "attr"): fn_attr, ("Fn", "truth"): lambda E, o: E.ghost["sh"].isv(o.fields["j"]), ("Var", "truth"): lambda E, o: E.ghost["sh"].isv(o.fields["j"]), ("binop", "Reqs"): lin_reqs}
def delegated(kind):
    """a call of another rule application: with the rule and configuration at hand; what it returns is returned"""
    def apply_call(self, E, f, argv):
        g = E.ghost
        if "calls" not in g: raise Unsupported("call of " + kind)
        g["calls"].append((kind, argv[1], argv[2])); r = g["make"](E, kind); g["ret"] = r; return r
    return apply_call
for c, k in ((ApplyDiff, "diff"), (ApplyGeneral, "general"), (ApplyLinear, "linear")): c.apply_call = delegated(k)
token = lambda E, kind: (E.case(True, False), Opaque("result"))
class ApplyExp(Contract):
    """refused below a minimum; forever when no count ever falls below its minimum; otherwise the general rule"""
    module = PS; qualname = "Proof_System.apply_exponential_rule"; params = ["self", "rule", "start_config"]; apply_call = delegated("exponential")
    def args(self, E):
        sh = mk_rule(E, False); ct, st = mk_counts(E, "cur", sh, lambda j: sh.cur(j)); g = E.ghost; n = sh.n; V = E.func("count", I, I, I); E.assume(Forall([I], lambda j: V(j, z3.IntVal(0)) == sh.cur(j), patterns=lambda j: [sh.cur(j)]))
        rule = E.new(PS, "Exponential_Rule", var_list=SymSeq(E, lambda j: Obj(E, "Var", {"j": zi(j)}), n), min_list=SymSeq(E, lambda j: sh.mn(zi(j)), n), func_list=SymSeq(E, lambda j: Obj(E, "Fn", {"j": zi(j)}), n), gen_rule=Opaque("general rule"), num_steps=Opaque("s"), states_last_seen=None, infinite=E.bool("infinite"), num_loops=1, num_uses=0, has_collatz_decrease=E.bool("cd"))
        p = E.new(PS, "Proof_System", verbose=False, compute_steps=False, verbose_prefix="", frozen=False); g.update(V=V, k=z3.IntVal(0), fill={}, rule=rule, calls=[], make=token); return NS(self=p, rule=rule, start_config=(E.int("state"), ct, E.int("step"), E.int("loop")))
    def post(self, E, old, a, r):
        g = E.ghost; sh = g["sh"]; fits = Forall([I], lambda j: Implies(And(j >= 0, j < sh.n, sh.isv(j)), sh.cur(j) >= sh.mn(j)))
        if g["calls"]: return [("the general rule, at this configuration", len(g["calls"]) == 1 and g["calls"][0][0] == "general" and g["calls"][0][1] is a.rule.fields["gen_rule"] and same_cfg(g["calls"][0][2], a.start_config)), ("and its result", same_cfg(r, g["ret"]))]
        if r[0] is False: return [("refused only below a minimum", Not(zb(fits.as_z3(E))))]
        return [("forever only when no count ever falls below its minimum", And(r[1][0].fields["condition"] == "Inf_Repeat", zb(a.rule.fields["infinite"]), fits.as_z3(E)))]
def same_cfg(x, y): return x is y or isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y) and all(a is b or (isinstance(a, bool) and a == b) for a, b in zip(x, y))
def blk_slice(E, o, k):
    if not isinstance(k, slice) or k.step is not None: raise Unsupported("block of a tape half")
    F = o.fields; n = F["n"]
    def pos(v, d):
        if v is None: return d
        v = zi(v)
        if not E.branch(v < 0): return E.cmin(v, n) if hasattr(E, "cmin") else Ite(v < n, v, n)
        return Ite(v + n > 0, v + n, z3.IntVal(0))
    lo, hi = pos(k.start, z3.IntVal(0)), pos(k.stop, n); r = view(E, F["store"], F["off"] + lo, Ite(hi > lo, hi - lo, z3.IntVal(0)), F["filt"]); return r
def cat(E, op, a, b):
    if not isinstance(op, ast.Add): raise Unsupported("tape operation")
    ps = lambda x: x.fields["parts"] if x.cls == "Cat" else (x,)
    return Obj(E, "Cat", {"parts": ps(a) + ps(b)})
class ApplyRule(Contract):
    """every kind of rule is applied by the function for its kind; a limited rule to the part of the tape it covers, the rest kept as it is"""
    module = PS; qualname = "Proof_System.apply_rule"; params = ["self", "rule", "start_config"]; feas_ms = 60
    KINDS = {"Diff_Rule": "diff", "Linear_Rule": "linear", "Exponential_Rule": "exponential", "General_Rule": "general", "Limited_Diff_Rule": "diff"}
    def args(self, E):
        k = E.case(*self.KINDS); sh = mk_rule(E, False); ct, st = mk_counts(E, "cur", sh, lambda j: sh.cur(j)); g = E.ghost; rule = E.new(PS, k, left_dist=E.int("left_dist"), right_dist=E.int("right_dist"), num_uses=0, num_loops=1); g.update(kind=k, calls=[], make=self.make, cur=st)
        return NS(self=E.new(PS, "Proof_System", verbose=False, verbose_prefix="", frozen=False, compute_steps=False), rule=rule, start_config=(E.int("state"), ct, E.int("step"), E.int("loop")))
    def pre(self, E, a): sh = E.ghost["sh"]; l, r = a.rule.fields["left_dist"], a.rule.fields["right_dist"]; return [("the covered part lies on the tape", And(l >= 1, l <= sh.n0, r >= 1, r <= sh.n - sh.n0))]
    def make(self, E, kind):
        g = E.ghost; c = g["calls"][-1][2]
        if E.case(True, False) is False: return (False, None)
        cond = E.case("Apply_Rule", "Inf_Repeat"); t = None
        if cond == "Apply_Rule": X = [Obj(E, "Half", {"i": i}) for i in (0, 1)]; t = E.new("Macro.Tape", "Chain_Tape", dir=c[1].fields["dir"], options=Opaque("o"), tape=PyList(E, list(X))); g["X"] = X
        return (True, (E.new(PS, "ProverResult", condition=cond, new_tape=t, num_base_steps=Opaque("steps"), states_last_seen=Opaque("seen")), E.bool("large")))
    def post(self, E, old, a, r):
        g = E.ghost; sh = g["sh"]; k = g["kind"]; cs = g["calls"]; ret = g.get("ret")
        if len(cs) != 1: return [("applied once", False)]
        kind, rule, cfg = cs[0]; out = [("by the function for its kind", kind == self.KINDS[k]), ("this rule", rule is a.rule)]
        if k != "Limited_Diff_Rule": return out + [("at this configuration", same_cfg(cfg, a.start_config)), ("its result", r is ret or same_cfg(r, ret))]
        t = cfg[1]; L, R = a.rule.fields["left_dist"], a.rule.fields["right_dist"]; vs = g["given"] if "given" in g else t.fields["tape"].items; st = a.start_config[1]
        ok = lambda v, off, n: And(isinstance(v, Obj) and v.cls == "BlkSeq" and not v.fields["filt"], v.fields["off"] == off, v.fields["n"] == n, z3.And(*[v.fields["store"].fields["num"](x) == sh.cur(x) for x in (z3.Int("any"),)]))
        out += [("state, steps and loops of this configuration", all(cfg[i] is a.start_config[i] for i in (0, 2, 3))), ("the covered part of the tape", And(ok(vs[0], sh.n0 - L, L), ok(vs[1], sh.n - R, R))), ("same direction", t.fields["dir"] is g["dir"]), ("the tape itself is left alone", And(ok(st.fields["tape"].items[0], 0, sh.n0), ok(st.fields["tape"].items[1], sh.n0, sh.n - sh.n0)))]
        if ret[0] is False: return out + [("its refusal", r[0] is False)]
        out += [("its result", And(r[0] is True, r[1][0] is ret[1][0], r[1][1] is ret[1][1]))]
        nt = r[1][0].fields["new_tape"]
        if r[1][0].fields["condition"] == "Apply_Rule":
            hs = nt.fields["tape"].items
            for i, (h, off, n) in enumerate(zip(hs, (z3.IntVal(0), sh.n0), (sh.n0 - L, sh.n - sh.n0 - R))): out.append(("the rest of the tape before the changed part", isinstance(h, Obj) and h.cls == "Cat" and len(h.fields["parts"]) == 2 and h.fields["parts"][1] is g["X"][i] and ok(h.fields["parts"][0], off, n)))
        return out
ApplyRule.exts = {("BlkSeq", "getitem"): blk_slice, ("binop", "BlkSeq"): cat, ("binop", "Half"): cat, ("binop", "Cat"): cat}
CONTRACTS = [MaxReps(), AddRep(), SubRep(), MultMin(), MultRep(), ExpIntMk(), FactorVar(), SeriesSum(), TapeCopy(), Subst(), NewVar(), ApplyDiff(), Fits(), ApplyGeneral(), ApplyLinear(), ApplyExp(), ApplyRule()]
LEMMAS = ["NumLemma", "PowerSums", "Fubini"]
