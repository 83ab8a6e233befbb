"""Direct simulation against the reference machine."""
from bounded.lib import *
import Direct_Simulator as DS
import IO
from IO import *

def same(rep, sim, ref, where, **d):
    ok = True
    ok &= rep.check(sim.halted == ref.halted, "halted flag differs " + where, **d)
    ok &= rep.check(sim.state == ref.state, "state differs " + where, **d)
    ok &= rep.check(sim.step_num == ref.steps, "step counter differs " + where, **d)
    ok &= rep.check(sim.tape.position == ref.pos, "position differs " + where, **d)
    lo = min(list(ref.tape) + [ref.pos]) - 3; hi = max(list(ref.tape) + [ref.pos]) + 3
    for p in list(range(lo, hi + 1)) + [lo - 1000, hi + 1000]:
        if not rep.check(sim.tape.read_pos(p) == ref.tape.get(p, 0), "cell differs " + where, cell=p, got=sim.tape.read_pos(p), want=ref.tape.get(p, 0), **d): ok = False; break
    ok &= rep.check(sim.tape.read() == ref.tape.get(ref.pos, 0), "read() differs " + where, **d)
    if ref.tape:
        for p in ref.tape:
            if ref.tape[p] and not rep.check(sim.tape.pos_leftmost() <= p <= sim.tape.pos_rightmost(), "non-blank cell outside the visited range " + where, cell=p, **d): break
    rep.check(sim.tape.pos_leftmost() <= ref.pos <= sim.tape.pos_rightmost(), "head outside the visited range " + where, **d)
    if ref.halted:
        ok &= rep.check(sim.halt_score == ref.score(), "score differs " + where, got=sim.halt_score, want=ref.score(), **d)
        ok &= rep.check((sim.halt_from_state, sim.halt_from_symbol) == ref.halt_from, "halting transition differs " + where, **d)
    return ok

def one(rep, tab, ops):
    text = show(tab)
    tm = IO.parse_tm(text)
    sims = [(DS.DirectSimulator(tm), Ref(tab))]
    import copy as cp
    for op in ops:
        k = op[0]
        sim, ref = sims[op[1] % len(sims)]
        if k == "step":
            for _ in range(op[2]):
                sim.step()
                if not ref.halted: ref.step()
        elif k == "seek":
            sim.seek(op[2]); ref.run(op[2])
        elif k == "copy":
            r2 = Ref(tab); r2.__dict__.update(ref.__dict__); r2.tape = dict(ref.tape); r2.last_seen = {}
            if not sim.halted: sims.append((sim.copy(), r2))
        elif k == "wpos" and not ref.halted:
            sim.tape.write_pos(op[3], op[2]); ref.tape[op[2]] = op[3]
        if op[0] in ("seek", "copy", "wpos") or op[2] > 3:
            if not same(rep, sim, ref, "after %s" % k, tm=text, ops=ops): return
    for sim, ref in sims:
        if not same(rep, sim, ref, "at the end", tm=text, ops=ops): return
    rep.case((text, ops), nontrivial=any(r.steps > 2 for _, r in sims))

def run(ctx):
    rng, rep = ctx.rng, ctx.rep
    n = 1500 if not ctx.thorough else 20000
    for i in range(n):
        if not ctx.time_left(): break
        tab = live_table(rng) if rng.random() < .7 else random_table(rng)
        nk = len(tab[0])
        ops = []
        for _ in range(rng.randrange(1, 9)):
            k = rng.choice(["step", "step", "seek", "copy", "wpos"])
            if k == "step": ops.append((k, rng.randrange(4), rng.choice([1, 1, 2, 7, 40])))
            elif k == "seek": ops.append((k, rng.randrange(4), rng.randrange(0, 150)))
            elif k == "copy": ops.append((k, rng.randrange(4)))
            else: ops.append((k, rng.randrange(4), rng.randrange(-30, 31), rng.randrange(nk)))
        one(rep, tab, [list(o) + [0] * (3 - len(o)) if len(o) < 3 else list(o) for o in ops])
        if rep.violations: return
    for c in CHAMPIONS:
        if ctx.worker == 0:
            tab = parse(c); sim = DS.DirectSimulator(IO.parse_tm(c)); ref = Ref(tab)
            for k in range(400):
                sim.step()
                if not ref.halted: ref.step()
                if k % 17 == 0 or ref.halted: 
                    if not same(rep, sim, ref, "champion", tm=c): return
            rep.case(c)

def replay(rep, d):
    v = d["violation"]["data"]
    if "ops" in v: one(rep, parse(v["tm"]), v["ops"])
