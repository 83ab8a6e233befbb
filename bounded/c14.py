"""Symbolic expressions against an independent polynomial ring."""
from bounded.lib import *
from fractions import Fraction
import math
import Algebraic_Expression as AE
import Exp_Int as EI
class P:
    """polynomial: {tuple(sorted((var,pow))): coef}"""
    def __init__(self, d=None): self.d = {k: v for k, v in (d or {}).items() if v != 0}
    @staticmethod
    def c(x): return P({(): Fraction(x)})
    @staticmethod
    def v(i): return P({((i, 1),): Fraction(1)})
    def __add__(s, o):
        d = dict(s.d)
        for k, v in o.d.items(): d[k] = d.get(k, 0) + v
        return P(d)
    def __mul__(s, o):
        d = {}
        for k1, v1 in s.d.items():
            for k2, v2 in o.d.items():
                m = dict(k1)
                for x, p in k2: m[x] = m.get(x, 0) + p
                k = tuple(sorted(m.items())); d[k] = d.get(k, 0) + v1 * v2
        return P(d)
    def neg(s): return P({k: -v for k, v in s.d.items()})
    def sub(s, a):
        """a: var -> P"""
        r = P()
        for k, v in s.d.items():
            t = P.c(v)
            for x, p in k:
                for _ in range(p): t = t * (a[x] if x in a else P.v(x))
            r = r + t
        return r
    def ev(s, a): return sum(v * math.prod(a[x]**p for x, p in k) for k, v in s.d.items()) if s.d else 0
    def minval(s):
        if any(v < 0 for k, v in s.d.items() if k): return None
        return s.d.get((), 0)
NV = 4
VARS = [AE.Variable() for _ in range(NV)]
IDS = [v.id for v in VARS]
def ev(e, a):
    """evaluate the real object from its public structure"""
    if not isinstance(e, AE.Expression): return e
    r = Fraction(ev(e.const, a))
    for t in e.terms:
        x = Fraction(ev(t.coef, a))
        for vp in t.vars: x *= a[IDS.index(vp.var.id)]**vp.pow
        r += x
    return r
def shape(rep, e, p, s):
    """the queries for the form of an expression answer only what is so"""
    lin = e.as_strictly_linear(); vs = {x for k in p.d for x, _ in k}
    if lin is not None:
        v, m, c = lin; i = IDS.index(v.id)
        if not rep.check((P({((i, 1),): Fraction(m), (): Fraction(c)}).d == p.d), "as_strictly_linear is not the expression", expr=s, got=str(lin)): return False
    plus = e.is_var_plus_const()
    def ask(f):
        try: return f()
        except AE.BadOperation: return None
    r = ask(e.variable_restricted); u = ask(e.variable)
    if not rep.check(bool(plus) == (r is not None), "variable_restricted and is_var_plus_const disagree", expr=s): return False
    if plus:
        i = IDS.index(r.id); c = p.d.get((), 0)
        if not rep.check(P({((i, 1),): Fraction(1), (): c}).d == p.d, "is_var_plus_const answers true for another form", expr=s): return False
    if u is not None and not rep.check(vs <= {IDS.index(u.id)}, "variable() names one of several variables", expr=s): return False
    return True
def leaf(rng):
    k = rng.randrange(5)
    if k == 0: n = rng.randrange(-4, 5); return n, P.c(n), "%d" % n
    if k == 1: n = rng.randrange(-4, 5); return AE.ConstantToExpression(n), P.c(n), "C(%d)" % n
    i = rng.randrange(NV)
    if k == 2: n = rng.randrange(-3, 6); return AE.VarPlusConstExpression(VARS[i], n), P.v(i) + P.c(n), "(v%d+%d)" % (i, n)
    return AE.VariableToExpression(VARS[i]), P.v(i), "v%d" % i
def build(rng, depth):
    if depth == 0: return leaf(rng)
    k = rng.choice("+-*+-*n/ps=")
    a, pa, sa = build(rng, depth - 1)
    if k == "n": return -a, pa.neg(), "-(%s)" % sa
    if k == "p":
        n = rng.randrange(0, 4)
        if len(pa.d) > 8: n = min(n, 1)
        r = P.c(1)
        for _ in range(n): r = r * pa
        return a**n, r, "(%s)**%d" % (sa, n)
    if k == "/":
        n = rng.choice([1, 2, 3, -1, 4])
        if not isinstance(a, AE.Expression): return a, pa, sa
        return rng.choice([lambda: a / n, lambda: a // n])(), pa * P.c(Fraction(1, n)), "(%s)/%d" % (sa, n)
    if k == "s":
        asg = {}; pas = {}
        for i in range(NV):
            if rng.random() < .5:
                x, px, sx = leaf(rng)
                asg[VARS[i]] = x; pas[i] = px
        return AE.substitute(a, asg), pa.sub(pas), "subst(%s, %s)" % (sa, {str(v): str(x) for v, x in asg.items()})
    b, pb, sb = build(rng, depth - 1) if rng.random() < .7 else leaf(rng)
    if k == "+" or k == "=": return a + b, pa + pb, "(%s)+(%s)" % (sa, sb)
    if k == "-": return a - b, pa + pb.neg(), "(%s)-(%s)" % (sa, sb)
    if len(pa.d) * len(pb.d) > 150: return a + b, pa + pb, "(%s)+(%s)" % (sa, sb)
    return a * b, pa * pb, "(%s)*(%s)" % (sa, sb)
def check(rep, rng, e, p, s):
    for _ in range(3):
        a = [rng.randrange(-5, 9) for _ in range(NV)]
        if not rep.check(ev(e, a) == p.ev(a), "expression denotes the wrong value", expr=s, assignment=a, got=str(ev(e, a)), want=str(p.ev(a))): return False
        x = AE.substitute(e, {VARS[i]: a[i] for i in range(NV)})
        if not rep.check(not isinstance(x, AE.Expression) and x == p.ev(a), "full substitution gives the wrong number", expr=s, assignment=a, got=str(x), want=str(p.ev(a))): return False
    return True
def tower(x):
    """value of a tower integer from its structure"""
    if isinstance(x, EI.ExpTerm): return x.coef * x.base**tower(x.exponent)
    if isinstance(x, EI.ExpInt): return Fraction(sum(tower(t) for t in x.terms) + x.const, x.denom)
    if isinstance(x, AE.Expression) and not x.terms: return tower(x.const)
    return x
def mixed(rng, depth):
    """expressions mixed with tower integers: (object, value at an assignment, text)"""
    k = rng.choice("+-*+-n") if depth else rng.choice("ivwtttx")
    i = rng.randrange(2)
    if k == "i": n = rng.randrange(-4, 6); return n, lambda a: n, "%d" % n
    if k == "v": return AE.VariableToExpression(VARS[i]), lambda a: a[i], "v%d" % i
    if k == "w": n = rng.randrange(0, 5); return AE.VarPlusConstExpression(VARS[i], n), lambda a: a[i] + n, "(v%d+%d)" % (i, n)
    if k == "t": n = rng.randrange(0, 90); c = rng.randrange(-3, 9); return EI.exp_int(2, n) + c, lambda a: 2**n + c, "(2^%d+%d)" % (n, c)
    if k == "x": u, n = rng.randrange(1, 4), rng.randrange(0, 5); return EI.exp_int(2, u * AE.VariableToExpression(VARS[i]) + n), lambda a: 2**(u * a[i] + n), "2^(%d*v%d+%d)" % (u, i, n)
    e, f, s = mixed(rng, depth - 1)
    if k == "n": return -e, lambda a: -f(a), "-(%s)" % s
    g, h, t = mixed(rng, rng.randrange(depth))
    if k == "+": return e + g, lambda a: f(a) + h(a), "(%s)+(%s)" % (s, t)
    if k == "-": return e - g, lambda a: f(a) - h(a), "(%s)-(%s)" % (s, t)
    return e * g, lambda a: f(a) * h(a), "(%s)*(%s)" % (s, t)
def run_mixed(ctx):
    rng, rep = ctx.rng, ctx.rep; done = 0
    for _ in range(1500 if not ctx.thorough else 20000):
        if not ctx.time_left() or rep.violations: break
        try: e, f, s = mixed(rng, rng.choice([1, 1, 2, 2, 3]))
        except Exception: continue        # a combination that is not supported
        for _ in range(3):
            a = [rng.randrange(0, 7) for _ in range(NV)]
            try: x = tower(AE.substitute(e, {VARS[i]: a[i] for i in range(NV)}))
            except Exception: break
            if not rep.check(x == f(a), "expression with tower integers denotes the wrong value", expr=s, assignment=a, got=str(x)[:80], want=str(f(a))[:80]): return
            done += 1
        rep.case(s, nontrivial="^" in s)
    rep.count("tower", done)
def run(ctx):
    rng, rep = ctx.rng, ctx.rep
    run_mixed(ctx)
    for i in range(6000 if not ctx.thorough else 80000):
        if not ctx.time_left() or rep.violations: break
        d = rng.choice([1, 1, 2, 2, 3, 3, 4])
        e, p, s = build(rng, d)
        keep = []
        if not check(rep, rng, e, p, s): return
        f, q, t = build(rng, rng.choice([0, 1, 2, 3]))
        snap = (repr(e), repr(f))
        # equality means equality as polynomials
        for x, px, y, py in ((e, p, f, q), (f, q, e, p), (e, p, e, p)):
            if isinstance(x, AE.Expression):
                same = not (px + py.neg()).d
                if not rep.check((x == y) == same and (x != y) == (not same), "equality differs from equality of polynomials", left=s if x is e else t, right=t if y is f else s, got=bool(x == y), want=same): return
        g = (e * 2 + f) - f - e
        if isinstance(g, AE.Expression) and not rep.check(g == e, "equality differs from equality of polynomials", left="2e+f-f-e", right=s): return
        # comparisons that answer true hold for every non-negative assignment
        integral = all(v.denominator == 1 for v in p.d.values()) and all(v.denominator == 1 for v in q.d.values())
        ge, gt = AE.always_ge(e, f), AE.always_gt(e, f)
        df = p + q.neg()
        for _ in range(4):
            a = [rng.choice([0, 0, 1, 2, 3, 50]) for _ in range(NV)]
            if not rep.check(not ge or df.ev(a) >= 0, "always_ge answers true but fails", left=s, right=t, assignment=a): return
            if not rep.check(not gt or df.ev(a) > 0, "always_gt answers true but fails", left=s, right=t, assignment=a): return
            m = AE.min_val(e)
            if not rep.check(p.ev(a) >= m, "min_val is not a lower bound", expr=s, assignment=a, got=str(m)): return
        pm = p.minval()
        if pm is not None and not rep.check(AE.min_val(e) == pm, "min_val is not attained", expr=s, got=str(AE.min_val(e)), want=str(pm)): return
        if not rep.check({IDS.index(v.id) for v in AE.variables(e)} >= {x for k in p.d for x, _ in k}, "variables() misses a variable", expr=s): return
        for x, px, sx in ((e, p, s), (f, q, t)):
            if isinstance(x, AE.Expression) and not shape(rep, x, px, sx): return
        if not check(rep, rng, e, p, s + " [afterwards]") or not rep.check(snap == (repr(e), repr(f)), "an operation changed its operand", left=s, right=t): return
        rep.case((s, t), nontrivial=len(p.d) > 1)
