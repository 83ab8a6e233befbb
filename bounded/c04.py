"""Accelerated simulation (no proof system) against the reference machine, loop by loop."""
from bounded.lib import *
from bounded.c03 import mk, flat
from Macro import Turing_Machine as T, Simulator as S
import math, Macro_Simulator

def opts(**k):
    o = S.create_default_options(); o.prover = False
    for a, b in k.items(): setattr(o, a, b)
    return o

def around(sim, w):
    """cells at distances -w..w-1 from the head boundary (unrolled), and how the head lies"""
    t = sim.tape; out = []
    for side in (0, 1):
        cells = []
        for b in reversed(t.tape[side]):
            n = w + 1 if b.num == math.inf else min(int(b.num), w + 1)
            sy = flat(b.symbol); sy = sy if side else sy[::-1]
            for _ in range(n):
                cells += sy
                if len(cells) > w: break
            if len(cells) > w: break
        out.append(cells[:w])
    return out

def compare(rep, sim, ref, macro_off, d, w=24):
    st = sim.state; l, r = around(sim, w); back = None
    if isinstance(st, T.Backsymbol_Macro_Machine_State): back = flat(st.back_symbol); st = st.base_state
    right = sim.dir == 1; head = 0 if right else -1
    if isinstance(st, T.OffsetStartState): head = st.offset; st = st.state
    if back is not None:
        if right: l = (back[::-1] + l)[:w]
        else: r = (back + r)[:w]
    ok = rep.check(int(st) == ref.state, "state %d instead of %d at step %d" % (int(st), ref.state, ref.steps), **d)
    cells = l[::-1] + r     # index w is distance 0 on the right
    want = [ref.tape.get(ref.pos - head + i, 0) for i in range(-w, w)]
    return ok and rep.check(cells == want, "tape around the head differs at step %d: %s instead of %s" % (ref.steps, "".join(map(str, cells)), "".join(map(str, want))), **d)

def forever(tab, n):
    return not Ref(tab).run(n).halted

def one(rep, d):
    tab = parse(d["tm"]); m = mk(tab)
    if d["block"] > 1 or d["force"]: m = T.Block_Macro_Machine(m, d["block"], offset=d["off"] or None, max_sim_steps_per_symbol=d["lim"])
    if d["back"]: m = T.Backsymbol_Macro_Machine(m)
    sim = S.Simulator(m, opts(compute_steps=True)); ref = Ref(tab); total = 0
    if not compare(rep, sim, ref, d["off"], d): return
    for i in range(d["loops"]):
        if d["via"] == "step": sim.step()
        elif d["via"] == "loop": sim.loop_seek(sim.num_loops + 1)
        elif d["via"] == "looprun": sim.loop_run(1)
        elif d["via"] == "seek": sim.seek(sim.step_num + 1)
        else: sim.run(1)
        rep.count(sim.op_state)
        if sim.op_state == T.GAVE_UP: break
        if sim.op_state == T.INF_REPEAT:
            r2 = Ref(tab).run(sim.step_num + 3000); rep.check(not r2.halted, "infinite verdict but the machine halts at step %d" % r2.steps, **d); break
        n = sim.step_num
        if not rep.check(n >= ref.steps and (n > ref.steps or False), "step counter does not advance (%r)" % n, **d): return
        if n > 60000: break
        ref.run(n); rep.case((d["tm"], d["block"], d["off"], d["back"], n), nontrivial=n > 3)
        if not rep.check(ref.steps == n, "the machine halts at step %d, the simulator is at %d (%s)" % (ref.steps, n, sim.op_state), **d): return
        if sim.op_state == T.RUNNING:
            if not rep.check(not ref.halted, "still running but the machine halted at step %d" % ref.steps, **d): return
            if not compare(rep, sim, ref, d["off"], d): return
            if not rep.check(dict(sim.states_last_seen) == ref.last_seen, "last visits %r instead of %r at step %d" % (sim.states_last_seen, ref.last_seen, n), **d): return
        else:
            want = T.UNDEFINED if ref.undefined else T.HALT
            if not rep.check(ref.halted and sim.op_state == want, "verdict %s, the machine: %s" % (sim.op_state, "halted" if ref.halted else "runs"), **d): return
            if not rep.check(sim.get_nonzeros() == ref.score(), "score %r instead of %r" % (sim.get_nonzeros(), ref.score()), **d): return
            rep.check(tuple(sim.op_details[0]) == (ref.halt_from[1], ref.halt_from[0]), "halting transition %r instead of %r" % (sim.op_details, ref.halt_from), **d)
            st = (sim.step_num, sim.num_loops); sim.step(); sim.loop_seek(10**6); rep.check((sim.step_num, sim.num_loops) == st, "a stopped simulator moved", **d)
            break
        if sim.op_state == T.RUNNING and i % 3 == 0: rep.check(sim.get_nonzeros() == ref.score(), "number of non-blanks %r instead of %r at step %d" % (sim.get_nonzeros(), ref.score(), n), **d)
        if rep.violations: return

def gen(rng):
    x = rng.random()
    tab = parse(rng.choice(CHAMPIONS)) if x < .1 else live_table(rng) if x < .8 else random_table(rng)
    b = rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 6, 8])
    return dict(tm=show(tab), block=b, force=rng.random() < .3, off=rng.randrange(1, b) if b > 1 and rng.random() < .3 else 0, back=rng.random() < .5, lim=rng.choice([10000, 10000, 10000, 200, 20]), loops=rng.choice([20, 60, 200]), via=rng.choice(["step", "step", "loop", "looprun", "seek", "run"]))

def run(ctx):
    rng, rep = ctx.rng, ctx.rep; i = 0
    while ctx.time_left() and not rep.violations and i < (4000 if not ctx.thorough else 10**7): one(rep, gen(rng)); i += 1
def replay(rep, d):
    v = d["violation"]["data"]; one(rep, {k: v[k] for k in ("tm", "block", "force", "off", "back", "lim", "loops", "via")})
