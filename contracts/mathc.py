"""Contracts of Code/Math.py."""
import z3
from pyvc.engine import *
from pyvc.contract import *
M = "Math"; I = z3.IntSort(); B = z3.BoolSort()
D = z3.Function("divides", I, I, B)          # D(d, x): d divides x
POW = z3.Function("POW", I, I, I)            # POW(b, k) = b**k, k >= 0
GCD = z3.Function("GCD", I, I, I)

def div_axioms(E):
    """Elementary facts of divisibility (each is the obligation of a lemma below)."""
    E.assume(Forall([I], lambda d: D(d, 0)))
    E.assume(Forall([I, I], lambda d, x: D(d, -x) == D(d, x), patterns=lambda d, x: [D(d, -x)]))
def lin(d, x, y, k): return Implies(And(D(d, x), D(d, y)), D(d, x + k * y))

def small_multiple(E, g, z):
    """Monotonicity of multiplication (proved as a lemma below)."""
    E.assume([Implies(And(g > 0, z >= 1), g * z >= g), Implies(And(g > 0, z <= -1), g * z <= -g)])

def cancel(E, x, y, g):
    """x*g == y*g and g != 0 imply x == y (proved as a lemma below)."""
    E.assume(Implies(And(x * g == y * g, g != 0), x == y))
class CancelLemma(Lemma):
    name = "cancellation and signs of products"
    def obligations(self, E):
        x, y, g = E.int("x"), E.int("y"), E.int("g")
        d = E.int("d"); E.assume(d == x - y)
        E.assume([g != 0, x * g == y * g])
        E.prove("(x-y)*g == 0", d * g == 0)
        E.prove("x - y == 0", Implies(d * g == 0, Or(d == 0, g == 0)))
        E.prove("x == y", x == y)
        a, u = E.int("a"), E.int("u")
        E.prove("a positive product with a positive factor has a positive cofactor", Implies(And(a >= 1, g >= 1, a == g * u), u >= 1))

class DivLemmas(Lemma):
    name = "divisibility is closed under linear combinations (x = d*u, y = d*w)"
    def obligations(self, E):
        d, u, w, k = E.int("d"), E.int("u"), E.int("w"), E.int("k")
        E.prove("x + k*y is a multiple of d", d * u + k * (d * w) == d * (u + k * w))
        E.prove("-x is a multiple of d", -(d * u) == d * (-u))
        E.prove("0 is a multiple of d", d * 0 == 0)
        q = E.int("q")
        E.prove("remainder: x - q*y is a multiple of d", d * u - q * (d * w) == d * (u - q * w))
        g, z = E.int("g"), E.int("z")
        E.prove("g*z >= g for z >= 1", Implies(And(g > 0, z >= 1), g * z >= g))
        E.prove("g*z <= -g for z <= -1", Implies(And(g > 0, z <= -1), g * z <= -g))

class Gcd(Contract):
    module = M; qualname = "gcd"; params = ["a", "b"]
    def args(self, E): return NS(a=E.int("a"), b=E.int("b"))
    def loops(self):
        def comm(E, x, y): return lambda d: D(d, x) == D(d, x)
        def pre(E, env):
            # any two integer locals may carry the pair
            E.ghost["pair0"] = (zi(env.a), zi(env.b))
        def inv(E, env):
            a0, b0 = E.ghost["A0"]; d = E.ghost["d"]
            return [("common divisors are unchanged", (And(D(d, zi(env.a)), D(d, zi(env.b)))) == And(D(d, a0), D(d, b0))), ("non-negative", And(zi(env.a) >= 0, zi(env.b) >= 0))]
        def snapshot(E, env): return (zi(env.a), zi(env.b))
        def after(E, env, old):
            a, b = old; a1, b1 = zi(env.a), zi(env.b); d = E.ghost["d"]
            # instances of the linear-combination lemma for the divisions of this step
            for x, y, q, r in E.ghost.get("divs", []): E.assume([Implies(And(D(d, x), D(d, y)), D(d, r)), Implies(And(D(d, r), D(d, y)), D(d, x))])
        def variant(E, env, old): return [("second component decreases and stays non-negative", And(zi(env.b) < old[1], zi(env.b) >= 0))]
        return [Loop("euclid", inv, pre=pre, snapshot=snapshot, after=after, variant=variant)]
    def old(self, E, a):
        d = E.int("d"); E.ghost["d"] = d; E.ghost["A0"] = (a.a, a.b); div_axioms(E)
        for x in (a.a, a.b): E.assume(D(d, -x) == D(d, x))
        E.assume(D(d, 0))
        return NS()
    def post(self, E, old, a, r):
        d = E.ghost["d"]
        return [("non-negative", zi(r) >= 0), ("divisors of the result are exactly the common divisors", D(d, zi(r)) == And(D(d, a.a), D(d, a.b)))]
    def apply_call(self, E, f, argv):
        a, b = zi(argv[0]), zi(argv[1]); g = GCD(a, b)
        u, w = E.int("u"), E.int("w")
        # consequences of the contract: g divides both, and is zero only for (0, 0)
        E.assume([g >= 0, a == g * u, b == g * w, (g == 0) == And(a == 0, b == 0)])
        E.ghost.setdefault("gcd", []).append((g, u, w))
        return g

class Lcm(Contract):
    module = M; qualname = "lcm"; params = ["a", "b"]
    def args(self, E): return NS(a=E.int("a"), b=E.int("b"))
    def raises(self, E, old, a, ex): return [("raises only for (0, 0)", And(a.a == 0, a.b == 0) if ex.kind == "ZeroDivisionError" else False)]
    def lemmas(self, E, old, a, r):
        for g, u, w in E.ghost.get("gcd", []):
            E.prove("a*b is a multiple of the gcd", a.a * a.b == g * (u * a.b))
            for x, y, q, rr in E.ghost.get("divs", []):
                z = E.int("z"); E.assume(z == u * a.b - q)
                small_multiple(E, g, z)
                E.prove("the remainder is a multiple of the gcd", rr == g * z)
                E.prove("exact division", rr == 0)
    def post(self, E, old, a, r):
        out = [("lcm * gcd = a * b", zi(r) * GCD(a.a, a.b) == a.a * a.b)]
        for g, u, w in E.ghost.get("gcd", [])[:1]:
            E.prove("cancel", And(zi(r) * g == (a.a * w) * g, zi(r) * g == (u * a.b) * g))
            cancel(E, zi(r), a.a * w, g); cancel(E, zi(r), u * a.b, g)
            out += [("a multiple of a, by b/gcd", zi(r) == a.a * w), ("a multiple of b, by a/gcd", zi(r) == u * a.b), ("positive cofactors for positive arguments", True)]
        return out
    LC = z3.Function("LCM", I, I, I)
    def apply_call(self, E, f, argv):
        a, b = zi(argv[0]), zi(argv[1]); L = Lcm.LC(a, b)
        if E.ghost.get("lcm_facts"):
            u, w = E.int("cofactor_b"), E.int("cofactor_a")      # a/gcd, b/gcd
            E.assume([L == a * w, L == b * u, Implies(And(a >= 1, b >= 1), And(u >= 1, w >= 1, L >= 1))])
            E.ghost.setdefault("exact", []).extend([(L, a, w), (L, b, u)]); E.ghost["lcm"] = (L, a, b, w, u)
        return L

class IntPow(Contract):
    """Soundness part: the returned pair really is a perfect-power decomposition.
    (That no smaller base was skipped depends on floating point and is bounded.)"""
    module = M; qualname = "int_pow"; params = ["n"]
    exts = {("external", "math.sqrt"): lambda E, x: Obj(E, "Float", {}), ("external", "math.log"): lambda E, *a: Obj(E, "Float", {}),
            ("builtin", "round"): lambda E, a, k: Obj(E, "Float", {}) if isinstance(a[0], Obj) else MISSING,
            ("builtin", "int"): lambda E, a, k: E.int("float2int") if a and isinstance(a[0], Obj) and a[0].cls == "Float" else MISSING,
            ("int", "pow"): lambda E, x, y: POW(x, y)}
    def args(self, E): return NS(n=E.int("n"))
    def pre(self, E, a): return [("non-negative", a.n >= 0)]
    def old(self, E, a):
        E.assume(Forall([I], lambda x: POW(x, 1) == x)); return NS()
    def loops(self): return [Loop("bases", lambda E, env: [])]
    def post(self, E, old, a, r):
        if not (isinstance(r, tuple) and len(r) == 2): return [("a pair", False)]
        m, k = zi(r[0]), zi(r[1])
        E.assume(POW(m, 1) == m)
        return [("m**k == n", POW(m, k) == a.n)]

def fl_attr(E, o, name):
    if name == "append":
        def f(E, x):
            p, k = x; p, k = zi(p), zi(k)
            E.prove("each prime is listed once, in increasing order", p > o.fields["last"])
            E.prove("each exponent is positive", k >= 1)
            E.prove("each listed base is a prime of the table", E.ghost["isp"](p))
            E.setfield(o, "val", o.fields["val"] * POW(p, k)); E.setfield(o, "last", p)
        return f
    raise Unsupported("list method " + name)
class PrimeFactor(Contract):
    module = M; qualname = "prime_factor"; params = ["n"]
    exts = {("FactorList", "attr"): fl_attr, ("int", "pow"): lambda E, x, y: POW(x, y), ("FactorList", "havoc"): lambda E, o, f: o.fields.__setitem__(f, E.int(f)) or True,
            ("FactorList", "truth"): lambda E, o: o.fields["last"] > 0}
    def args(self, E): return NS(n=E.int("n"))
    def pre(self, E, a): return []
    def raises(self, E, old, a, ex):
        if ex.kind == "AssertionError": return [("assertion only for n <= 0", a.n <= 0)]
        if ex.kind == "NotImplementedError": return [("explicit refusal", True)]
        return [("no other exception (%s)" % ex.kind, False)]
    def loops(self):
        def res_of(E, env):
            for n, v in env.fr.locals.items():
                if isinstance(v, Obj) and v.cls == "FactorList": return v
                if isinstance(v, PyList) and len(v.items) == 0: return None
            raise Unsupported("no result list")
        def vl(E, env):
            v = res_of(E, env)
            return (z3.IntVal(1), z3.IntVal(0)) if v is None else (v.fields["val"], v.fields["last"])
        def pre(E, env):
            it = env.it
            if not isinstance(it, PyList) or not all(isinstance(x, int) for x in it.items): raise Unsupported("prime table")
            E.prove("the table holds primes only", all(x >= 2 and all(x % q for q in range(2, int(x**.5) + 1)) for x in it.items))
            E.prove("the table is increasing", all(x < y for x, y in zip(it.items, it.items[1:])))
            PR = E.func("PR", I, I); E.ghost["PR"] = PR
            isp = E.func("listed_prime", I, B); E.ghost["isp"] = isp
            # turn the local list into its abstraction
            for n, v in list(env.fr.locals.items()):
                if isinstance(v, PyList) and not v.items:
                    env.fr.locals[n] = Obj(E, "FactorList", {"val": z3.IntVal(1), "last": z3.IntVal(0)})
        def item(E, k, src):
            PR = E.ghost["PR"]
            E.assume([PR(k) >= 2, E.ghost["isp"](PR(k))]); return PR(k)
        def inv(E, env):
            v, last = vl(E, env); k = zi(env.k); PR = E.ghost.get("PR")
            if PR is None: return []
            return [("product so far times the rest is n", v * zi(env.n_) == E.ghost["n0"]), ("rest is positive", zi(env.n_) >= 1), ("earlier primes are smaller", Implies(And(k >= 0, k < zi(env.n_items)), last < PR(k)))]
        # the ghost names k, n of a for loop would shadow the program's n
        def inv_for(E, env):
            n = env.fr.locals.get((E.rename or {}).get("n", "n"))
            if n is None: raise Unbound("n")
            v, last = vl(E, env); k = zi(env.extra["k"]); N = zi(env.extra["n"]); PR = E.ghost["PR"]
            E.assume(PR(k) < PR(k + 1)); E.assume(PR(k - 1) < PR(k))
            return [("product so far times the rest is n", v * zi(n) == E.ghost["n0"]), ("rest is positive", zi(n) >= 1), ("earlier primes are smaller", last < PR(k)), ("last", last >= 0)]
        def hv(E, fr, n):
            if isinstance(fr.locals[n], Obj): return fr.locals[n]
            return MISSING
        def head(E, env): 
            E.assume([E.ghost["PR"](0) >= 2])
        def pre_w(E, env): E.ghost["nk"] = zi(env.n)
        def inv_w(E, env):
            n, k, p = zi(env.n), zi(env.k), zi(env.p)
            return [("n * p**k is unchanged", n * POW(p, k) == E.ghost["nk"]), ("k >= 0", k >= 0), ("n >= 1", n >= 1)]
        def pre_w2(E, env):
            E.ghost["nk"] = zi(env.n); E.assume(POW(zi(env.p), 0) == 1)
        def after_w(E, env, old):
            p, k = zi(env.p), old[1]
            E.assume(POW(p, k + 1) == p * POW(p, k))
            # n == p * n' (exact division), hence n * P == n' * (p * P)
            n1 = zi(env.n); q = E.int("quot")
            E.prove("exact division", old[0] == p * n1)
            E.assume(old[0] * POW(p, k) == n1 * (p * POW(p, k)))
        def head_w(E, env):
            pass
        def snap(E, env): return (zi(env.n), zi(env.k))
        return [Loop("primes", inv_for, pre=lambda E, env: (pre(E, env), E.assume([E.ghost["PR"](0) >= 2])), item=item, force=True, havoc_local=hv),
                Loop("divide", inv_w, pre=pre_w2, after=after_w, snapshot=snap, head=head_w)]
    def old(self, E, a): E.ghost["n0"] = a.n; return NS()
    def post(self, E, old, a, r):
        if not (isinstance(r, Obj) and r.cls == "FactorList"): raise Unsupported("result list")
        return [("the product of the listed prime powers is n", r.fields["val"] == a.n)]

class FactorSeq(Contract):
    pass

LAM = lambda p, k: z3.If(And(p == 2, k >= 3), POW(2, k - 2), (p - 1) * POW(p, k - 1))
class Carmichael(Contract):
    """Computes the textbook formula: lcm of lambda(p^k) over the factorisation
    and the largest exponent."""
    module = M; qualname = "carmichael"; params = ["n"]
    exts = {("int", "pow"): lambda E, x, y: POW(x, y)}
    def args(self, E): return NS(n=E.int("n"))
    def old(self, E, a):
        P = E.func("fp", I, I); K = E.func("fk", I, I); N = E.int("nf"); L = E.func("lcmfold", I, I); X = E.func("maxfold", I, I)
        E.assume([N >= 0, L(0) == 1, X(0) == 1])
        E.ghost.update(P=P, K=K, N=N, L=L, X=X)
        return NS()
    def loops(self):
        def inv(E, env):
            g = E.ghost; k = zi(env.extra["k"])
            return [("lcm so far", zi(env.res) == g["L"](k)), ("largest exponent so far", zi(env.max_k) == g["X"](k))]
        def head(E, env):
            g = E.ghost; k = zi(env.extra["k"]); p, e = g["P"](k), g["K"](k)
            E.assume([p >= 2, e >= 1, g["L"](k + 1) == Lcm.LC(g["L"](k), LAM(p, e)), g["X"](k + 1) == z3.If(e > g["X"](k), e, g["X"](k))])
        return [Loop("factors", inv, head=head)]
    def post(self, E, old, a, r):
        g = E.ghost
        if not (isinstance(r, tuple) and len(r) == 2): return [("a pair", False)]
        return [("lcm of lambda(p^k)", zi(r[0]) == g["L"](g["N"])), ("largest exponent (at least 1)", zi(r[1]) == g["X"](g["N"]))]
    def apply_call(self, E, f, argv):
        m = zi(argv[0]); kp, k0 = E.int("lambda"), E.int("k0")
        PM = E.ghost["PM"]
        # Carmichael's theorem (exponential cycle length), the assumed mathematical fact
        E.assume([kp >= 1, k0 >= 1]); E.ghost["kp"], E.ghost["k0"] = kp, k0
        return (kp, k0)
class PrimeFactorUse(Contract): pass

class ExpMod(Contract):
    module = M; qualname = "exp_mod"; params = ["b", "k", "m"]
    def args(self, E): return NS(b=E.int("b"), k=E.int("k"), m=E.int("m"))
    def pre(self, E, a): return [("domain", And(a.k >= 0, a.m >= 1))]
    def setup(self, E):
        def bpow(E, args, kw):
            b, k, m = args
            return E.ghost["PM"](zi(b), zi(k), zi(m))
        E.exts[("builtin", "pow")] = bpow
    def old(self, E, a):
        E.ghost["PM"] = E.func("POWMOD", I, I, I, I); return NS()
    def lemmas(self, E, old, a, r):
        g = E.ghost
        if "kp" not in g: return
        PM, kp, k0 = g["PM"], g["kp"], g["k0"]; b, m = a.b, a.m
        # if k >= k0: k = kn + t*kp, kn >= k0; the cycle theorem applied t times
        for x, y, t, rr in E.ghost.get("divs", []):
            kn = rr + (a.k - x)
            small_multiple(E, kp, t)
            E.prove("the reduced exponent differs by a multiple of the period", And(y == kp, a.k == kn + t * kp))
            E.prove("the reduced exponent is in the periodic part", And(kn >= k0, t >= 0))
            E.induct("b^(kn + i*lambda) = b^kn (mod m)", t, lambda i: PM(b, kn + i * kp, m) == PM(b, kn, m),
                     
                     unfold=lambda i: And(Implies(i >= 0, i * kp >= 0), Implies(kn + i * kp >= k0, PM(b, kn + (i + 1) * kp, m) == PM(b, kn + i * kp, m))))
            E.assume(PM(b, kn + t * kp, m) == PM(b, kn, m)); E.assume(kn + t * kp == a.k)
    def post(self, E, old, a, r): return [("b**k mod m", zi(r) == E.ghost["PM"](a.b, a.k, a.m))]

def pf_call(self, E, f, argv):
    g = E.ghost
    return SymSeq(E, lambda i: (g["P"](i), g["K"](i)), g["N"], "list")
PrimeFactor.apply_call = pf_call
CONTRACTS = [Gcd(), Lcm(), IntPow(), PrimeFactor(), Carmichael(), ExpMod()]
LEMMAS = ["DivLemmas", "CancelLemma"]
