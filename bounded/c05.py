"""Applying a proven rule against repeating its elementary change."""
from bounded.lib import *
from Macro import Proof_System as P, Tape, Simulator as S, Rule_Func as RF
import Algebraic_Expression as ae, Exp_Int
from Exp_Int import exp_int
from fractions import Fraction
import math, contextlib, io as _io

INF = math.inf
def val(x):
    """exact integer (or inf) denoted by a count"""
    if x == INF: return INF
    if isinstance(x, (int, Fraction)): return x
    if isinstance(x, ae.Expression): assert x.is_const, x; return val(x.const)
    v = Exp_Int.try_eval(x); assert v is not None, x
    return int(v)

def mk_prover(**k):
    o = S.create_default_options(); o.compute_steps = True
    for a, b in k.items(): setattr(o, a, b)
    return P.Proof_System(None, o, "")

def mk_tape(l, r, dir):
    t = Tape.Chain_Tape(); t.tape = [[Tape.Repeated_Symbol(s, n) for s, n in l], [Tape.Repeated_Symbol(s, n) for s, n in r]]; t.dir = dir
    t.options = S.create_default_options(); t.displaysymbol = t.displaysymbol if hasattr(t, "displaysymbol") else None
    return t

def poly(rng, vs, deg):
    """integer-valued polynomial as (Expression-or-int builder, python function)"""
    mons = []
    for _ in range(rng.randrange(0, 4)):
        e = {}
        for _ in range(rng.randrange(1, deg + 1)):
            if vs: v = rng.choice(vs); e[v] = e.get(v, 0) + 1
        mons.append((rng.choice([1, 2, 3, 5, -1]), e, rng.random() < .35))
    c0 = rng.randrange(0, 20)
    def ev(env):
        t = Fraction(c0)
        for c, e, b in mons:
            m = Fraction(c)
            for v, p in e.items(): m *= binom(env[v], p) if b else env[v] ** p
            t += m
        return t
    def binom(x, p):
        r = Fraction(1)
        for i in range(p): r = r * (x - i) / (i + 1)
        return r
    ex = ae.ConstantToExpression(c0)
    for c, e, b in mons:
        m = ae.ConstantToExpression(c)
        for v, p in e.items():
            X = ae.VariableToExpression(v)
            if b:
                q = ae.ConstantToExpression(1)
                for i in range(p): q = (q * (X - i)) / (i + 1)
                m = m * q
            else: m = m * X ** p
        ex = ex + m
    return ex, ev

def freeze(t): return [[(b.symbol, b.num if b.num == INF or isinstance(b.num, int) else str(b.num)) for b in s] for s in t.tape]

def quiet(f, *a):
    s = _io.StringIO()
    with contextlib.redirect_stdout(s), contextlib.redirect_stderr(s): return f(*a)

def diff_case(rep, rng, d):
    p = mk_prover(limited_rules=d["kind"] == "limited", compute_steps=d["steps"])
    nb = [rng.randrange(0, 4), rng.randrange(0, 4)]
    if d["kind"] == "limited": nb = [max(1, nb[0]), max(1, nb[1])]
    ini, dif, cur, spec = [[], []], [[], []], [[], []], []
    anyneg = rng.random() < .85; vs = []; negs = 0; sym = d["sym"]; y = ae.Variable() if sym else None
    where = [(s, i) for s in (0, 1) for i in range(nb[s])]
    isneg = set(rng.sample(where, min(len(where), rng.choice([1, 1, 2, 3])))) if anyneg and where else set()
    symneg = rng.random() < .5
    for s in (0, 1):
        if d["kind"] != "limited" or rng.random() < .3: ini[s].append((0, INF)); dif[s].append((0, INF)); cur[s].append((0, INF)); spec.append(None)
        for i in range(nb[s]):
            q = rng.randrange(0, 3)
            if (s, i) not in isneg and rng.random() < .25: ini[s].append((q, 1)); dif[s].append((q, 0)); cur[s].append((q, 1)); spec.append((None, 1, 0, 1)); continue
            v = ae.Variable(); vs.append(v); c = rng.randrange(1, 8)
            dl = -rng.choice([1, 1, 1, 2, 3, 5]) if (s, i) in isneg else rng.choice([0, 0, 1, 1, 2, 4])
            if c + dl < 0: c = -dl + rng.randrange(0, 2)
            if c + dl < 0 or c < 1: c = max(1, -dl)
            n = c + rng.choice([-1, 0, 0, 1, 2, 3, 7, 20, 60, 150])
            if dl >= 0 and rng.random() < .15: n = c + 10**rng.choice([9, 30])
            if d["exp"] and rng.random() < .4:
                n = exp_int(2, rng.choice([3, 5, 7])) + rng.randrange(0, 3)
            if sym and ((s, i) in isneg and symneg or (s, i) not in isneg and rng.random() < .4):
                n = ae.VariableToExpression(y) * rng.choice([1, 1, 2]) + max(c, 1) + rng.randrange(0, 4) if not ((s, i) in isneg) else ae.VariableToExpression(y) + c + rng.randrange(0, 4)
            ini[s].append((q, ae.VarPlusConstExpression(v, c))); dif[s].append((q, dl)); cur[s].append((q, n)); spec.append((v, c, dl, n))
    steps, sf = poly(rng, vs, d["deg"]); seen = {}; seenf = {}
    for st in ("A", "B")[:rng.randrange(0, 3)]: seen[st], seenf[st] = poly(rng, vs, d["deg"])
    # the sides as blocks; for a limited rule the tape continues beyond the rule's reach
    ctx = [[], []]
    if d["kind"] == "limited":
        ld, rd = len(ini[0]), len(ini[1])
        rule = P.Limited_Diff_Rule(mk_tape(*ini, 1), ld, rd, mk_tape(*dif, 1), "A", steps, 1, 0, seen)
        for s in (0, 1):
            if not ini[s] or ini[s][0][1] != INF: ctx[s] = [(0, INF)] + [(rng.randrange(0, 3), rng.choice([1, 2, 9])) for _ in range(rng.randrange(0, 3))]
    else: rule = P.Diff_Rule(mk_tape(*ini, 1), mk_tape(*dif, 1), "A", steps, 1, 0, d["kind"] == "meta", seen)
    tape = mk_tape(ctx[0] + cur[0], ctx[1] + cur[1], rng.randrange(2)); before = freeze(tape)
    info = dict(ini=str(ini), dif=str(dif), cur=str(cur), steps_expr=str(steps), **d)
    try: good, res = quiet(p.apply_rule, rule, ("A", tape, 0, 0))
    except (NotImplementedError, TypeError, AssertionError, Exp_Int.ExpIntException):
        if not d["exp"]: raise
        rep.count("refused"); return      # huge counts: an error instead of a wrong answer
    rep.check(freeze(tape) == before, "the given tape was modified", **info)
    if d["steps"] is False and seen: pass
    envs = [{y: k} for k in (0, 1, 2, 5)] if sym else [{}]
    for env in envs:
        sp = [None if x is None else (x[0], x[1], x[2], val(ae.substitute(x[3], env))) for x in spec]
        cnt = [INF if x is None else x[3] for x in sp]; tot = 0; reps = 0; last = {}
        neg = any(x and x[0] is not None and x[2] < 0 for x in sp)
        def fits(c): return all(x is None or x[0] is None or n >= x[1] for x, n in zip(sp, c))
        rep.case((info["ini"], info["dif"], info["cur"], str(env)), nontrivial=fits(cnt)); applies = fits(cnt)
        if not good:
            if not sym: rep.check(not applies, "the rule was not applied although it applies", **info)
            continue
        if not rep.check(applies, "the rule was applied below its minimum", **info): return
        R = res[0]
        if R.condition == P.INF_REPEAT:
            rep.check(not neg, "declared infinite although a block count decreases", **info); rep.count("inf"); continue
        if not rep.check(neg, "applied finitely although no block count decreases", **info): return
        while fits(cnt):
            xs = {x[0]: n - x[1] for x, n in zip(sp, cnt) if x and x[0] is not None}
            last = {st: tot + f(xs) for st, f in seenf.items()}
            tot += sf(xs); cnt = [n if x is None or x[0] is None else n + x[2] for x, n in zip(sp, cnt)]; reps += 1
        want = [[], []]; j = 0
        for s in (0, 1):
            want[s] = [(q, n) for q, n in ctx[s]]
            for q, n in cur[s]: want[s].append((q, cnt[j])); j += 1
            want[s] = [(q, n) for q, n in want[s] if n != 0]
        got = [[(b.symbol, val(ae.substitute(b.num, env)) if b.num != INF else INF) for b in s] for s in R.new_tape.tape]
        got = [[(q, n) for q, n in s if n != 0] for s in got]
        if not rep.check(got == want and R.new_tape.dir == tape.dir, "wrong tape after the rule: %s instead of %s" % (got, want), **info): return
        rep.count("apply %s" % d["kind"])
        if d["steps"]:
            g = val(ae.substitute(R.num_base_steps, env))
            if not rep.check(g == tot, "wrong number of steps: %s instead of %s (%d repetitions)" % (g, tot, reps), **info): return
            if seen: rep.check({k: val(ae.substitute(v, env)) for k, v in R.states_last_seen.items()} == last, "wrong last visits %s instead of %s" % (R.states_last_seen, last), **info)

def gen_case(rep, rng, d):
    kind = d["kind"]
    p = mk_prover(exp_linear_rules=d["lin"], exp_meta_linear_rules=False, max_num_reps=d["reps"])
    nb = [rng.randrange(0, 3), rng.randrange(0, 3)]
    if sum(nb) == 0: nb[1] = 1
    vl, ml, res, cur, fs = [], [], [[], []], [[], []], []
    vars_ = [ae.Variable() for _ in range(sum(nb))]; j = 0
    neg_at = rng.randrange(sum(nb)) if rng.random() < .75 else -1
    if kind == "general" and rng.random() < .3 and sum(nb) > 1: swap = vars_[:]; rng.shuffle(swap)
    else: swap = None
    for s in (0, 1):
        res[s].append((0, INF)); cur[s].append((0, INF)); vl.append(None); ml.append(INF); fs.append(None)
        for i in range(nb[s]):
            v = vars_[j]; X = ae.VariableToExpression(swap[j] if swap else v); q = rng.randrange(3); src = swap[j] if swap else v
            m = rng.randrange(1, 6)
            if j == neg_at:
                c = rng.choice([1, 1, 2, 3]); e = X - c; f = (lambda x, c=c: x - c); m = max(m, c)
            else:
                k = rng.random()
                if kind == "exponential" and k < .7:
                    b = rng.choice([2, 3]); u = 1; w = rng.randrange(1, 3); a = rng.choice([1, 2]); c = rng.choice([0, 1, 4, -1, -3, -20])
                    dn = rng.choice([1, 1, b - 1]) if c == -a else 1
                    e = (a * exp_int(b, u * X + w) + c)
                    if dn != 1: e = e / dn
                    f = (lambda x, a=a, b=b, u=u, w=w, c=c, dn=dn: (a * b**(u * x + w) + c) // dn)
                elif kind in ("linear", "exponential", "general") and k < .5:
                    mu = rng.choice([2, 2, 3, 4]); c = rng.choice([0, 1, 5, -1, -2, -7]); e = mu * X + c; f = (lambda x, mu=mu, c=c: mu * x + c)
                elif kind == "general" and k < .7:
                    c = rng.randrange(0, 3); e = X * X + c; f = (lambda x, c=c: x * x + c)
                else:
                    c = rng.choice([0, 0, 1, 2, 5]); e = X + c; f = (lambda x, c=c: x + c)
            n = m + rng.choice([-1, 0, 0, 1, 2, 4, 9])
            if kind == "exponential" and j != neg_at: n = m + rng.choice([0, 0, 1])
            vl.append(v); ml.append(m); res[s].append((q, e)); cur[s].append((q, n)); fs.append((v, src, f)); j += 1
    steps, sf = poly(rng, vars_, 2); seen, seenf = {}, {}
    for st in ("A", "B")[:rng.randrange(0, 3)]: seen[st], seenf[st] = poly(rng, vars_, 2)
    rt = mk_tape(*res, 1); rmin = list(ml)
    info = dict(vars=str(vl), mins=str(ml), result=str(res), cur=str(cur), steps_expr=str(steps), **d)
    if kind == "general": rule = P.General_Rule(vl, ml, rt, steps, 1, 0, seen)
    elif kind == "linear": rule = P.Linear_Rule.try_gen(vl, list(ml), rt, steps, 1, 0, seen)
    else: rule = P.Exponential_Rule.try_gen(vl, list(ml), rt, steps, 1, 0, seen)
    if not rule: rep.count("no " + kind); return
    # the stated minimum may only have been raised
    eff = rule.min_list
    for a, b in zip(ml, eff):
        if not rep.check(b is None or a == INF or a is None or b >= a, "the rule's minimum was lowered", **info): return
    tape = mk_tape(*cur, rng.randrange(2)); before = freeze(tape)
    try: good, R = quiet(p.apply_rule, rule, ("A", tape, 0, 0))
    except (NotImplementedError, TypeError, AssertionError, Exp_Int.ExpIntException):
        if kind != "exponential" and not (kind == "linear" and d["lin"]): raise
        rep.count("refused"); return
    rep.check(freeze(tape) == before, "the given tape was modified", **info)
    names = [x for x in fs]; c0 = [n for q, n in cur[0] + cur[1]]
    def fits(c): return all(x is None or n >= m for x, n, m in zip(fs, c, eff))
    def step(c):
        env = {x[0]: n for x, n in zip(fs, c) if x}
        return [n if x is None else x[2](env[x[1]]) for x, n in zip(fs, c)], env
    rep.case((info["result"], info["mins"], info["cur"]), nontrivial=fits(c0))
    if not good:
        rep.check(not fits(c0), "the rule was not applied although it applies", **info); return
    R = R[0]
    if not rep.check(fits(c0), "the rule was applied below its minimum", **info): return
    if R.condition == P.INF_REPEAT:
        rep.count("inf " + kind); c = c0
        for k in range(60):
            if not rep.check(fits(c), "declared infinite but after %d repetitions the counts %s are below the minimum" % (k, str(c)[:200]), **info): return
            if max([n for n in c if n != INF] + [0]) > 60: break
            c, _ = step(c)
        return
    c = c0; tot = 0; k = 0; linear = kind == "linear" and d["lin"]; last = {}
    while fits(c) and (linear or k < d["reps"]):
        if max([n for n in c if n != INF] + [0]) > (3000 if kind == "exponential" else 10**200) or k > 400: return
        nxt, env = step(c); last = {st: tot + f(env) for st, f in seenf.items()}; tot += sf(env); c = nxt; k += 1
    try: got = [val(b.num) for b in R.new_tape.tape[0] + R.new_tape.tape[1]]
    except AssertionError: rep.count("too big"); return
    rep.count("apply " + kind)
    if not rep.check([x for x in got if x != 0] == [x for x in c if x != 0] and R.new_tape.dir == tape.dir, "wrong tape after the rule: %s instead of %s (%d repetitions)" % (str(got)[:300], str(c)[:300], k), **info): return
    if linear: rep.check(R.num_base_steps is None, "a linear rule claims a step count", **info)
    else:
        if not rep.check(val(R.num_base_steps) == tot, "wrong number of steps: %s instead of %s" % (R.num_base_steps, tot), **info): return
        if seen: rep.check({a: val(b) for a, b in R.states_last_seen.items()} == last, "wrong last visits %s instead of %s" % (R.states_last_seen, last), **info)

def sums(rep, rng, d):
    k = ae.Variable(); other = ae.Variable(); N = rng.randrange(0, 30); ex, f = poly(rng, [k, other] if rng.random() < .5 else [k], 3)
    sN = rng.random() < .3
    n = ae.VarPlusConstExpression(ae.Variable(), 1) if sN else exp_int(2, 5) if rng.random() < .2 else N
    try: got = P.series_sum(ex, k, n)
    except (TypeError, AssertionError, Exp_Int.ExpIntException):
        if isinstance(n, (int, ae.Expression)): raise
        rep.count("refused"); return
    if sN: nv = n.variable(); N = rng.randrange(1, 12); got = ae.substitute(got, {nv: N - 1, other: 7})
    else: got = ae.substitute(got, {other: 7})
    if not isinstance(n, int) and not sN: N = 32
    want = sum(f({k: i, other: 7}) for i in range(N)); rep.case((str(ex), str(n), N))
    rep.check(val(got) == want, "series_sum(%s, N=%s) = %s instead of %s" % (ex, n, got, want), **d)

def one(rep, d):
    rng = random.Random(d["seed"])
    if d["kind"] in ("diff", "meta", "limited"): diff_case(rep, rng, d)
    elif d["kind"] == "sum": sums(rep, rng, d)
    else: gen_case(rep, rng, d)

def gen(rng):
    return dict(kind=rng.choice(["diff", "diff", "diff", "meta", "limited", "linear", "linear", "exponential", "general", "general", "sum"]), seed=rng.randrange(10**12), deg=rng.choice([1, 2, 3]),
                sym=rng.random() < .3, exp=rng.random() < .25, steps=rng.random() < .85, lin=rng.random() < .6, reps=rng.choice([1, 3, 10]))

def run(ctx):
    rng, rep = ctx.rng, ctx.rep; i = 0
    while ctx.time_left() and not rep.violations: one(rep, gen(rng)); i += 1
def replay(rep, d):
    v = d["violation"]["data"]; one(rep, {k: v[k] for k in ("kind", "seed", "deg", "sym", "exp", "steps", "lin", "reps")})
