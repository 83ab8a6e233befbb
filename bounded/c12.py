"""Number theory helpers against independent definitions."""
from bounded.lib import *
import math, Math as X
RAISES_ARE_VIOLATIONS = True
def lam_brute(n):
    """smallest m with a^m = 1 mod n for all a coprime to n"""
    m = 1
    units = [a for a in range(1, n + 1) if math.gcd(a, n) == 1]
    for a in units:
        k, x = 1, a % n
        while x % n != 1 % n: x = x * a % n; k += 1
        m = m * k // math.gcd(m, k)
    return m
PR = [p for p in range(2, 98) if all(p % q for q in range(2, p))]
def factor(n):
    out = []; p = 2
    while n > 1:
        k = 0
        while n % p == 0: n //= p; k += 1
        if k: out.append((p, k))
        p += 1
        if p > 10**5: return None
    return out
def iroot(n, k):
    lo, hi = 1, 1 << (n.bit_length() // k + 1)
    while lo < hi:
        m = (lo + hi + 1) // 2
        if m**k <= n: lo = m
        else: hi = m - 1
    return lo
def base_of(n):
    for k in range(n.bit_length(), 1, -1):
        m = iroot(n, k)
        if m >= 2 and m**k == n: return (m, k)
    return (n, 1)
def run(ctx):
    rng, rep = ctx.rng, ctx.rep; C = rep.check
    # exhaustive small ranges
    for a in range(-40, 41):
        if not ctx.mine(a): continue
        for b in range(-40, 41):
            C(X.gcd(a, b) == math.gcd(a, b), "gcd wrong", a=a, b=b, got=X.gcd(a, b)); rep.case(("gcd", a, b))
            if a > 0 and b > 0: C(X.lcm(a, b) == a * b // math.gcd(a, b), "lcm wrong", a=a, b=b)
    for n in range(1, 4000 if not ctx.thorough else 60000):
        if not ctx.mine(n) or not ctx.time_left() or rep.violations: continue
        C(X.int_pow(n) == base_of(n), "int_pow wrong", n=n, got=str(X.int_pow(n)), want=str(base_of(n))); rep.case(("int_pow", n))
    for m in range(2, 60):
        for k in range(1, 40):
            n = m**k
            if n < 10**10 and ctx.mine(m + k): C(X.int_pow(n) == base_of(n), "int_pow wrong", n=n, got=str(X.int_pow(n)), want=str(base_of(n)))
    for n in range(1, 3000 if not ctx.thorough else 20000):
        if not ctx.mine(n) or rep.violations: continue
        f = factor(n); ok = all(p <= 97 for p, _ in f)
        try: r = X.prime_factor(n)
        except NotImplementedError: C(not ok, "prime_factor refuses a supported number", n=n); r = None
        if r is not None: C([tuple(x) for x in r] == f, "prime_factor wrong", n=n, got=str(r), want=str(f))
        rep.case(("prime_factor", n))
    for n in list(range(1, 200 if not ctx.thorough else 600)):
        if not ctx.mine(n) or rep.violations or not ctx.time_left(): continue
        f = factor(n)
        if any(p > 97 for p, _ in f): continue
        lam, mk = X.carmichael(n)
        C(lam == lam_brute(n), "carmichael wrong", n=n, got=lam, want=lam_brute(n))
        C(mk == max([k for _, k in f] + [1]), "carmichael: largest exponent wrong", n=n, got=mk); rep.case(("carmichael", n))
    for m in range(1, 130):
        if not ctx.mine(m) or rep.violations or not ctx.time_left(): continue
        if any(p > 97 for p, _ in factor(m)): continue
        for b in list(range(0, 14)) + [m - 1, m, m + 1]:
            for k in list(range(0, 20)) + [rng.randrange(20, 4000) for _ in range(4)]:
                C(X.exp_mod(b, k, m) == pow(b, k, m), "exp_mod wrong", b=b, k=k, m=m, got=X.exp_mod(b, k, m), want=pow(b, k, m)); rep.evals += 1
        rep.case(("exp_mod", m))
    while ctx.time_left() and not rep.violations and rep.evals < (400000 if not ctx.thorough else 10**7):
        g = rng.getrandbits(rng.choice([1, 20, 80])) + 1
        a, b = g * rng.getrandbits(rng.choice([3, 40, 200])) * rng.choice([1, -1]), g * rng.getrandbits(rng.choice([3, 40, 200]))
        C(X.gcd(a, b) == math.gcd(a, b), "gcd wrong", a=str(a), b=str(b))
        if a > 0 and b > 0: C(X.lcm(a, b) == a * b // math.gcd(a, b), "lcm wrong", a=str(a), b=str(b))
        n = 1
        for _ in range(rng.randrange(1, 7)): n *= rng.choice(PR)**rng.randrange(1, 4)
        C([tuple(x) for x in X.prime_factor(n)] == factor(n), "prime_factor wrong", n=str(n))
        m = 1
        for _ in range(rng.randrange(1, 4)): m *= rng.choice(PR[:8])**rng.randrange(1, 5)
        bb, k = rng.randrange(0, 200), rng.choice([rng.randrange(0, 12), rng.getrandbits(rng.choice([5, 30, 300]))])
        C(X.exp_mod(bb, k, m) == pow(bb, k, m), "exp_mod wrong", b=bb, k=str(k), m=str(m)); rep.case((a, b, n, m, bb, k))
