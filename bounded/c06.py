"""Simulation with the proof system against the reference machine, and every proven rule against direct runs."""
from bounded.lib import *
from bounded.c03 import mk, flat
from bounded.c04 import compare
from Macro import Turing_Machine as T, Simulator as S, Proof_System as P
import Algebraic_Expression as ae, Exp_Int
import math, io as _io, contextlib

MACHINES = [l.strip() for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "data", "machines.txt")) if l.strip()]
# families with Collatz-like, linear (exponential growth) and tower behaviour
MACHINES += CHAMPIONS + ["1RB2LA1RA1RA_1LB1LA3RB1RZ", "1RB2LA1RA_1LB1LA3RB".replace("3RB", "2RB"), "1RB3LB4LB4LA2RB_2LA---3RB4RA3LA".replace("---", "1RZ")]
SKIP = {"1RB1RA_0RC0LB_0RD0RA_1LD0LA"} - {"1RB1RA_0RC0LB_0RD0RA_1LD0LA"}

def lookahead(depth, base, gain, back=True):
    """x^p > a^n -> x^(p+gain) > a^(n-1) as long as n >= depth (the head looks that far ahead); at depth-1 all becomes a's again and
    `base` x's are put in front; shorter runs halt.  Rules about whole rounds are built from the inner rule and must not hold for short runs."""
    S = {}; names = ["P%d" % i for i in range(depth + 1)] + ["K", "A"] + ["L%d" % i for i in range(2, depth + 1)] + ["W%d" % i for i in range(depth - 2, -1, -1)] + ["H%d" % i for i in range(max(gain - 1, 1))] + ["J"] + ["U%d" % i for i in range(1, base)]
    def t(st, sy, w, d, n): S[(st, sy)] = (w, d, n)
    t("P0", 0, 2, "R", "P1")
    for i in range(1, depth + 1): t("P%d" % i, 0, 1, "R" if i < depth else "L", "P%d" % (i + 1) if i < depth else "K")
    t("K", 1, 1, "L", "K"); t("K", 2, 2, "R", "A"); t("A", 2, 2, "R", "A"); t("A", 1, 1, "R", "L2")
    for i in range(2, depth): t("L%d" % i, 1, 1, "R", "L%d" % (i + 1))
    t("L%d" % depth, 1, 1, "L", "W%d" % (depth - 2)); t("L%d" % depth, 0, 0, "L", "J")
    for i in range(depth - 2, 0, -1): t("W%d" % i, 1, 1, "L", "W%d" % (i - 1))
    if gain == 1: t("W0", 1, 2, "R", "A"); t("H0", 2, 2, "L", "H0"); t("H0", 0, 2, "R", "A")
    else:
        t("W0", 1, 2, "L", "H0"); t("H0", 2, 2, "L", "H0")
        for i in range(gain - 1): t("H%d" % i, 0, 2, "R" if i == gain - 2 else "L", "A" if i == gain - 2 else "H%d" % (i + 1))
    t("J", 1, 1, "L", "J"); t("J", 2, 1, "L", "J"); last = "H0" if back else "A"
    t("J", 0, 2, "L" if base > 1 or back else "R", "U1" if base > 1 else last)
    for i in range(1, base): t("U%d" % i, 0, 2, "L" if i < base - 1 or back else "R", "U%d" % (i + 1) if i < base - 1 else last)
    nm = {s: chr(65 + i) for i, s in enumerate(names)}
    return "_".join("".join("%d%s%s" % (S[s, y][0], S[s, y][1], nm[S[s, y][2]]) if (s, y) in S else "1RZ" for y in range(3)) for s in names)
LOOKAHEAD = [lookahead(d, b, g, k) for d in (3, 4, 5) for b in (1, 2, 3) for g in (1, 2, 3) for k in (True, False)]

class Slow(Exception): pass

def toint(x, cap=10**7):
    if isinstance(x, int): return x if x <= cap else None
    v = Exp_Int.try_eval(x)
    if v is None: return None
    v = int(v)
    return v if v <= cap else None

def config(state, dir, left, right):
    """(cells, pos, state) of a concrete tape; None when it cannot be unrolled"""
    cells = [[], []]
    for side, bl in ((0, left), (1, right)):
        for sym, num in reversed(bl):
            sy = flat(sym); sy = sy if side else sy[::-1]
            if num == math.inf:
                if any(sy): return None
                break
            n = toint(num, 5000)
            if n is None or n < 0 or n * len(sy) > 20000: return None
            cells[side] += sy * n
    l, r = cells; st = state
    if isinstance(st, T.Backsymbol_Macro_Machine_State):
        b = flat(st.back_symbol); st = st.base_state
        if dir == 1: l = b[::-1] + l
        else: r = b + r
    if isinstance(st, T.OffsetStartState): return None
    t = {}
    for i, c in enumerate(r): t[i] = c
    for i, c in enumerate(l): t[-1 - i] = c
    return t, (0 if dir == 1 else -1), int(st)

def canon(t, pos): return {k - pos: v for k, v in t.items() if v}

def blocks_of(tape, f=None): return [[(b.symbol, f(b.num) if f else b.num) for b in tape.tape[s]] for s in (0, 1)]

def check_rule(rep, tab, rule, dir, state, rng, d, steps_on, tries=3):
    vs = {}; kind = type(rule).__name__
    if isinstance(rule, (P.Diff_Rule, P.Limited_Diff_Rule)):
        for _ in range(tries):
            ini = [[], []]; fin = [[], []]; val = {}
            for s in (0, 1):
                for b, db in zip(rule.initial_tape.tape[s], rule.diff_tape.tape[s]):
                    n = b.num
                    if isinstance(n, ae.Expression):
                        x = n.variable_restricted(); val[x] = rng.choice([0, 0, 1, 2, 3, 5]); n = n.const + val[x]
                        fin[s].append((db.symbol, n + db.num))
                    else: fin[s].append((db.symbol, n if n == math.inf else n + db.num))
                    ini[s].append((b.symbol, n))
            if isinstance(rule, P.Limited_Diff_Rule):
                for s in (0, 1):
                    if not ini[s] or ini[s][0][1] != math.inf:
                        w = len(flat(ini[s][0][0])) if ini[s] else 1
                        if not ini[s]: return
                        proto = ini[s][0][0]
                        syms = [b[0] for b in ini[0] + ini[1]]
                        extra = [(rng.choice(syms), rng.choice([1, 1, 2, 3])) for _ in range(rng.randrange(3))]
                        ini[s] = extra + ini[s]; fin[s] = extra + fin[s]
            one_rule(rep, tab, rule, kind, dir, state, ini, fin, ae.substitute(rule.num_steps, val), d, steps_on)
    else:
        g = rule if isinstance(rule, P.General_Rule) else rule.gen_rule
        for _ in range(tries):
            val = {}; L = g.left_size; ini = [[], []]; fin = [[], []]
            for i, (v, m) in enumerate(zip(g.var_list, g.min_list)):
                s = 0 if i < L else 1
                if v: n = m + rng.choice([0, 0, 1, 2, 3]); val[v] = n
                else: n = g.result_list[i] if m is None else m
                ini[s].append([g.block_list[i], n])
            for i, r in enumerate(g.result_list):
                s = 0 if i < L else 1
                fin[s].append((g.block_list[i], ae.substitute(r, val)))
            one_rule(rep, tab, rule, kind, dir, state, ini, fin, ae.substitute(g.num_steps, val), d, steps_on)

def one_rule(rep, tab, rule, kind, dir, state, ini, fin, n, d, steps_on):
    n = toint(n, 60000) if steps_on else None
    rep.count(kind if steps_on else kind + " (no steps)")
    a = config(state, dir, *ini)
    if a is None: return
    b = config(state, dir, *fin)
    if b is None or (steps_on and n is None): return
    r = Ref(tab); r.tape, r.pos, r.state = dict(a[0]), a[1], a[2]
    want = canon(b[0], b[1])
    if steps_on:
        r.run(n)
        ok = not r.halted and r.steps == n and r.state == b[2] and canon(r.tape, r.pos) == want
    else:
        # without step counts: some later configuration must match
        ok = False
        while r.steps < 30000 and not r.halted:
            r.step()
            if r.state == b[2] and canon(r.tape, r.pos) == want: ok = True; break
        if not ok and not r.halted: return
    rep.case((d["tm"], kind, str(ini), n))
    rep.check(ok, "false rule (%s %s)" % (kind, rule.name), start=str(ini), end=str(fin), nsteps=str(n), reached="step %d state %d halted %s %s" % (r.steps, r.state, r.halted, sorted(canon(r.tape, r.pos).items())[:60]), **d)

def rules_of(p):
    out = []
    for key, r in p.rules.items():
        for x in (r if isinstance(r, list) else [r]):
            if isinstance(r, list): out.append((x, key[2], key[1]))
            else: out.append((x, key[1], key[0]))
    return out

def one(rep, d):
    tab = parse(d["tm"]); m = mk(tab); rng = random.Random(d["seed"])
    if d["block"] > 1: m = T.Block_Macro_Machine(m, d["block"], offset=None, max_sim_steps_per_symbol=10000)
    if d["back"]: m = T.Backsymbol_Macro_Machine(m)
    o = S.create_default_options(); o.prover = True; o.compute_steps = d["steps"]; o.recursive = d["rec"]; o.limited_rules = d["lim"]
    o.exp_linear_rules = d["lin"]; o.exp_meta_linear_rules = d["mlin"]; o.max_num_reps = d["reps"]
    sim = S.Simulator(m, o); ref = Ref(tab); done = set(); cap = d["cap"]
    err = _io.StringIO()
    with contextlib.redirect_stdout(err), contextlib.redirect_stderr(err):
        for i in range(d["loops"]):
            if time.time() > d["_deadline"]: break
            try: sim.step()
            except (NotImplementedError, Exp_Int.ExpIntException): rep.count("refused"); return   # refused loudly
            for r, dr, st in rules_of(sim.prover):
                if id(r) not in done:
                    done.add(id(r)); check_rule(rep, tab, r, dr, st, rng, {k: v for k, v in d.items() if k[0] != "_"}, d["steps"])
                    if rep.violations: return
            dd = {k: v for k, v in d.items() if k[0] != "_"}
            if sim.op_state == T.GAVE_UP: break
            if sim.op_state == T.INF_REPEAT:
                rep.count("inf"); r2 = Ref(tab).run(20000)
                rep.check(not r2.halted, "infinite verdict but the machine halts at step %d" % r2.steps, **dd); break
            if not sim.compute_steps:
                if sim.op_state != T.RUNNING: rep.count("halt (no steps)"); nosteps(rep, sim, tab, dd); break
                continue
            n = toint(sim.step_num, cap)
            if n is None:
                if sim.op_state != T.RUNNING: rep.count("halt (huge)"); break
                continue
            if not rep.check(n > ref.steps, "step counter does not advance (%r)" % n, **dd): return
            ref.run(n); rep.case((d["tm"], d["block"], d["back"], d["rec"], d["lim"], n), nontrivial=sim.num_rule_moves > 0)
            if not rep.check(ref.steps == n, "the machine halts at step %d, the simulator is at %d (%s)" % (ref.steps, n, sim.op_state), **dd): return
            if sim.op_state == T.RUNNING:
                if not rep.check(not ref.halted, "still running but the machine halted at step %d" % ref.steps, **dd): return
                if not cmp(rep, sim, ref, dd): return
            else:
                rep.count("halt"); want = T.UNDEFINED if ref.undefined else T.HALT
                rep.check(ref.halted and sim.op_state == want, "verdict %s, the machine: %s" % (sim.op_state, "halted" if ref.halted else "runs"), **dd)
                rep.check(toint(sim.get_nonzeros()) == ref.score(), "score %r instead of %r" % (sim.get_nonzeros(), ref.score()), **dd)
                break
            if rep.violations: return

def nosteps(rep, sim, tab, d):
    r = Ref(tab).run(400000)
    if r.halted:
        s = toint(sim.get_nonzeros())
        if s is not None: rep.check(s == r.score(), "score %r instead of %r" % (s, r.score()), **d)

def cmp(rep, sim, ref, d):
    c = config(sim.state, sim.dir, *blocks_of(sim.tape))
    if c is None: return True
    ok = rep.check(c[2] == ref.state, "state %d instead of %d at step %d" % (c[2], ref.state, ref.steps), **d)
    a, b = canon(c[0], c[1]), canon(ref.tape, ref.pos)
    if a != b:
        k = min(set(a.items()) ^ set(b.items()))
        ok = rep.check(False, "the tape differs at step %d near distance %d from the head" % (ref.steps, k[0]), **d)
    return ok

def gen(rng, i):
    x = rng.random()
    if x < .05: tm = rng.choice(LOOKAHEAD)
    elif x < .37: tm = rng.choice(MACHINES)
    else: tm = show(live_table(rng) if x < .95 else random_table(rng))
    lin = rng.random() < .25
    return dict(tm=tm, block=rng.choice([1, 1, 1, 2, 2, 3, 4, 6]), back=rng.random() < .45, rec=rng.random() < .6, lim=rng.random() < .3, lin=lin, mlin=lin and rng.random() < .5,
                steps=rng.random() < .85 and not lin, reps=rng.choice([10, 10, 1, 3]), loops=rng.choice([100, 300, 1000, 2500]), cap=rng.choice([20000, 60000, 200000]), seed=rng.randrange(10**9))

def run(ctx):
    rng, rep = ctx.rng, ctx.rep; i = 0
    for tm in rng.sample(LOOKAHEAD, 10) + [lookahead(4, 2, 2)]:
        for steps in (True, False):
            d = gen(rng, 0); d.update(tm=tm, block=1, back=False, rec=True, lim=rng.random() < .3, steps=steps, lin=not steps and rng.random() < .6, mlin=rng.random() < .5, loops=300); d["_deadline"] = time.time() + 3; one(rep, d)
    while ctx.time_left() and not rep.violations:
        d = gen(rng, i); d["_deadline"] = time.time() + 3; one(rep, d); i += 1
def replay(rep, d):
    v = d["violation"]["data"]; v = {k: v[k] for k in ("tm", "block", "back", "rec", "lim", "lin", "mlin", "steps", "reps", "loops", "cap", "seed")}; v["_deadline"] = time.time() + 60; one(rep, v)
