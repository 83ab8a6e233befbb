"""Tower-exponent integers against ordinary integers and against an
independent evaluator of towers modulo m."""
from bounded.lib import *
import math
from fractions import Fraction
import Exp_Int as X
from Exp_Int import ExpInt, ExpTerm, exp_int, try_eval, try_simplify, sign, ExpIntException, struct_eq
MODS = [m for m in range(1, 400) if all(m % p for p in range(101, m + 1) if all(p % q for q in range(2, int(p**.5) + 1)))]

class Huge(Exception): pass
def val(x, lim=40000):
    """value of the real object from its structure"""
    if not isinstance(x, (ExpInt, ExpTerm)): return x
    if isinstance(x, ExpTerm):
        e = val(x.exponent, lim)
        if e > lim: raise Huge()
        return x.coef * x.base**e
    n = sum(val(t, lim) for t in x.terms) + x.const
    return Fraction(n, x.denom)
# reference towers: ("i", n) | ("p", b, ref) | ("+", r, s) | ("*", r, s) | ("/", r, n)
def rval(r, lim=40000):
    k = r[0]
    if k == "i": return r[1]
    if k == "p":
        e = rval(r[2], lim)
        if e > lim: raise Huge()
        return Fraction(r[1])**e
    if k == "+": return rval(r[1], lim) + rval(r[2], lim)
    if k == "*":
        for a, b in ((r[1], r[2]), (r[2], r[1])):
            try:
                if rval(a, lim) == 0: return 0
            except Huge: pass
        return rval(r[1], lim) * rval(r[2], lim)
    return Fraction(rval(r[1], lim)) / r[2]
CYC = {}
def cyc(b, m):
    if (b, m) not in CYC:
        seen = {}; s = []; x = 1 % m
        while x not in seen: seen[x] = len(s); s.append(x); x = x * b % m
        CYC[(b, m)] = (seen[x], len(s) - seen[x], s)
    return CYC[(b, m)]
def atleast(r, n):
    """is r >= n, for towers built without negative parts"""
    try: return rval(r, 2000) >= n
    except Huge: return True
def rmod(r, m):
    """exact remainder; divisions are done on a scaled modulus"""
    k = r[0]
    if k == "i": return r[1] % m
    if k == "p":
        mu, la, s = cyc(r[1], m)
        try:
            e = rval(r[2], 3000)
            return pow(r[1], int(e), m)
        except Huge: pass
        e = rmod(r[2], la)        # r[2] is huge and positive
        while e < mu: e += la
        return s[e]
    if k == "+": return (rmod(r[1], m) + rmod(r[2], m)) % m
    if k == "*": return (rmod(r[1], m) * rmod(r[2], m)) % m
    x = rmod(r[1], m * abs(r[2]))
    assert x % abs(r[2]) == 0
    return (x // abs(r[2])) * (1 if r[2] > 0 else -1) % m
def isint(r, n):
    """does n divide r"""
    return rmod(r, abs(n)) == 0
def text(r):
    k = r[0]
    if k == "i": return str(r[1])
    if k == "p": return "%d^(%s)" % (r[1], text(r[2]))
    return "(%s %s %s)" % (text(r[1]), k, text(r[2]) if k != "/" else r[2])

def gen(rng, base, depth, big):
    """(object, ref) over one base, integer valued"""
    if depth == 0 or rng.random() < .15:
        if rng.random() < .3: n = rng.randrange(-9, 10); return n, ("i", n)
        if big and rng.random() < .6:
            e, re = gen(rng, base, rng.choice([0, 1]), rng.random() < .4)
            if not positive(e, re): e, re = 7, ("i", 7)
        else: n = rng.choice([1, 2, 3, 5, 8, rng.randrange(1, 60), rng.randrange(990, 1010), rng.randrange(1, 3000)]); e, re = n, ("i", n)
        return exp_int(base, e), ("p", base, re)
    k = rng.choice("++-**n/m")
    a, ra = gen(rng, base, depth - 1, big)
    if k == "n": return -a, ("*", ("i", -1), ra)
    if k == "/":
        n = rng.choice([2, 3, 4, 5, 6, 7, 9, 12, -1, -2, -3])
        if not isinstance(a, ExpInt): return a, ra
        if isint(ra, n):
            return (a / n if n < 0 or rng.random() < .6 else a // n), ("/", ra, n)
        r = rmod(ra, abs(n))
        return (a - r) / n, ("/", ("+", ra, ("i", -r)), n)
    b, rb = gen(rng, base, depth - 1, big) if rng.random() < .6 else (lambda n: (n, ("i", n)))(rng.randrange(-12, 13))
    if k == "m":
        c = rng.choice([0, 1]); a, ra, b, rb = (a, ra, b, rb) if c else (b, rb, a, ra)
        return a * b, ("*", ra, rb)
    if k == "*": return a * b, ("*", ra, rb)
    if k == "+": return a + b, ("+", ra, rb)
    return a - b, ("+", ra, ("*", ("i", -1), rb))
def positive(e, re):
    try: return rval(re, 5000) > 0
    except Huge: return not neg(re)
def neg(r):
    if r[0] == "i": return r[1] < 0
    if r[0] == "p": return False
    if r[0] == "/": return r[2] < 0 or neg(r[1])
    return neg(r[1]) or neg(r[2])

def sv(x):
    try: return str(x)[:200]
    except ValueError: return "<huge: %d bits>" % int(x).bit_length()
def small(x):
    return not isinstance(x, ExpInt) or all(try_eval(t.exponent) is not None and try_eval(t.exponent) < 900 for t in x.terms)
def run(ctx):
    rng, rep = ctx.rng, ctx.rep
    for i in range(4000 if not ctx.thorough else 60000):
        if not ctx.time_left() or rep.violations: break
        base = rng.choice([2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 10, 12, 27]); big = rng.random() < .5
        try: x, r = gen(rng, base, rng.choice([1, 1, 2, 2, 3]), big)
        except ExpIntException: rep.count("explicit refusals"); continue
        except Huge: continue
        t = text(r)
        if len(t) > 600: continue
        v = None
        try:
            v = rval(r); v0 = v; v = None; got = val(x); v = v0
        except Huge: pass
        if v is not None and not rep.check(got == v, "denotes the wrong integer", expr=t, got=sv(got), want=sv(v)): return
        if isinstance(x, ExpInt):
            if not rep.check(isinstance(x.denom, int) and x.denom > 0 and x.terms, "malformed value", expr=t): return
        for m in [rng.choice(MODS) for _ in range(4)] + [1, 2]:
            try: g = x % m
            except (ExpIntException, NotImplementedError): continue
            w = rmod(r, m)
            if not rep.check(g == w, "remainder is wrong", expr=t, m=m, got=str(g), want=str(w)): return
            if isinstance(x, ExpInt) and m > 1 and rng.random() < .3:
                try: q, g2 = divmod(x, m)
                except (ExpIntException, NotImplementedError): continue
                if not rep.check(g2 == w, "divmod remainder is wrong", expr=t, m=m, got=str(g2), want=str(w)): return
                if v is not None:
                    try: qv = val(q)
                    except Huge: continue
                    if not rep.check(qv == (v - w) / m, "divmod quotient is wrong", expr=t, m=m, got=sv(qv)): return
        e = try_eval(x)
        if e is not None:
            if not rep.check(v is not None and e == v, "evaluation is wrong", expr=t, got=sv(e), want=sv(v)): return
        elif not rep.check(v is None or not small(x), "a small value is not evaluated", expr=t): return
        if v is not None and e is not None:
            if not rep.check(sign(x) == (v > 0) - (v < 0), "sign is wrong", expr=t, got=sign(x)): return
            for y, w in ((int(v), v), (int(v) + 1, v + 1), (int(v) - 1, v - 1), (0, 0), (rng.randrange(-50, 50),) * 2, (-int(v), -v), (math.inf, math.inf), (-math.inf, -math.inf)):
                if not isinstance(x, ExpInt): break
                g = (x < y, x <= y, x > y, x >= y); want = (v < w, v <= w, v > w, v >= w)
                if not rep.check(g == want, "ordering is wrong", expr=t, other=sv(y), got=str(g), want=str(want)): return
                if y not in (math.inf, -math.inf) and rng.random() < .2:
                    try: z = exp_int(2, 5) * 0 + y if not isinstance(y, int) else (exp_int(base, 3) + (y - base**3))
                    except Exception: continue
                    g = (x < z, x <= z, x > z, x >= z)
                    if not rep.check(g == want, "ordering is wrong", expr=t, other="tower " + sv(y), got=str(g), want=str(want)): return
        elif v is not None and isinstance(x, ExpInt) and len(x.terms) == 1:
            # single large term: the sign and comparison with small numbers are decided
            if not rep.check(sign(x) == (v > 0) - (v < 0), "sign is wrong", expr=t, got=sign(x)): return
            for y in (0, 10**6, -10**6):
                if not rep.check(((x > y), (x < y)) == (v > y, v < y), "ordering is wrong", expr=t, other=str(y)): return
        rep.case(t, nontrivial=isinstance(x, ExpInt))
        rep.count("huge" if v is None else "evaluable")
