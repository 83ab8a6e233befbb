"""Lin recurrence detector against an independent check of recurrence."""
from bounded.lib import *
import Lin_Recur_Detect as LR, IO, io_pb2, Halting_Lib
from collections import defaultdict

def trace(tab, n):
    """states, positions and tapes (dicts without blanks) at steps 0..n; stops at a halt"""
    r = Ref(tab); out = [(r.state, r.pos, dict(r.tape))]
    for _ in range(n):
        if r.halted: break
        r.step(); out.append((r.state, r.pos, {k: v for k, v in r.tape.items() if v}))
    return r, out

def recurs(tr, s, p):
    """configuration s+p equals configuration s shifted, on what the head sees from then on"""
    if s + p >= len(tr): return None
    (q0, x0, t0), (q1, x1, t1) = tr[s], tr[s + p]
    if q0 != q1 or q0 == -1: return False
    off = x1 - x0; xs = [tr[j][1] for j in range(s, s + p + 1)]; L, R = min(xs), max(xs)
    if off > 0: cells = lambda x: x >= L
    elif off < 0: cells = lambda x: x <= R
    else: cells = lambda x: L <= x <= R
    return {x + off: v for x, v in t0.items() if cells(x)} == {x: v for x, v in t1.items() if cells(x - off)}

def one(rep, tab, maxs, mn, cap=4000):
    text = show(tab); tm = IO.parse_tm(text)
    info = io_pb2.LinRecurFilterInfo(); info.parameters.max_steps = maxs; info.parameters.find_min_start_step = mn; st = io_pb2.BBStatus()
    LR.filter(tm, info, st); res = info.result; d = dict(tm=text, max_steps=maxs, min_start=mn)
    if res.success:
        s, p, o = res.start_step, res.period, res.offset
        r, tr = trace(tab, s + 4 * p + 40)
        rep.count("recurrent"); rep.case((text, maxs, mn))
        if not rep.check(not r.halted, "a halting machine is reported as recurrent", **d): return
        if not rep.check(p >= 1 and recurs(tr, s, p), "the reported configuration does not recur", start=s, period=p, **d): return
        for k in (0, 1, 2):
            if not rep.check(tr[s + (k + 1) * p][0] == tr[s + k * p][0] and tr[s + (k + 1) * p][1] - tr[s + k * p][1] == o, "the reported offset is wrong", start=s, period=p, offset=o, **d): return
        if not rep.check(st.halt_status.is_decided and not st.halt_status.is_halting and st.halt_status.inf_reason == io_pb2.INF_LIN_RECUR, "status is not: infinite by Lin recurrence", **d): return
        if mn and s > 0 and not rep.check(not recurs(tr, s - 1, p), "an earlier start recurs with the same period", start=s, period=p, **d): return
        # quasihalting: a state not used in the period is never used again
        inper = {tr[j][0] for j in range(s, s + p)}
        last = {}
        for j in range(len(tr)): last[tr[j][0]] = j
        gone = {q: j for q, j in last.items() if q not in inper}; allst = set(range(len(tab)))
        q = st.quasihalt_status
        if q.is_decided:
            if gone and not (allst - set(last)): pass
            if rep.check(q.is_quasihalting == bool(gone), "quasihalt status is wrong", gone=repr(gone), **d) and gone:
                m = max(gone.values()); rep.check(Halting_Lib.get_big_int(q.quasihalt_steps) == m + 1 and q.quasihalt_state in [x for x, j in gone.items() if j == m], "quasihalt time or state is wrong", got=Halting_Lib.get_big_int(q.quasihalt_steps), want=m + 1, **d)
    else:
        n = 2 * maxs if maxs else cap
        r, tr = trace(tab, n)
        if st.halt_status.is_decided:
            rep.count("halted"); rep.case((text, maxs, mn))
            if rep.check(st.halt_status.is_halting and r.halted, "a machine that has not halted is reported as decided", **d):
                h = st.halt_status
                rep.check((Halting_Lib.get_big_int(h.halt_steps), Halting_Lib.get_big_int(h.halt_score), h.from_state, h.from_symbol) == (r.steps, r.score()) + r.halt_from, "wrong halting data", got=[Halting_Lib.get_big_int(h.halt_steps), Halting_Lib.get_big_int(h.halt_score)], want=[r.steps, r.score()], **d)
        else:
            rep.count("undecided"); rep.case((text, maxs, mn))
            rep.check(not (r.halted and r.steps < maxs), "a halt within the budget is not reported", **d)

def mod(rng, tab):
    t = [list(r) for r in tab]
    i, j = rng.randrange(len(t)), rng.randrange(len(t[0]))
    t[i][j] = (rng.randrange(len(t[0])), rng.choice([1, -1]), rng.randrange(len(t))); return t
KNOWN = ["1RB0RC_1LB1LD_0RA0LD_1LA1RC".replace("0RC_", "0RC_"), "1RB1RA_0RC0LB_0RD0RA_1LD0LA", "1RB0LA_1LA0RB", "1RB1LB_1LA0RA", "1RB---_1LB0RA", "1RB0RB_1LA1RB", "1RB1LA_0LA0RB", "1RB0LC_1LC0RA_1LA0LB", "1RB2LB1LA_2LA2RB1RZ", "1RB1LA_0RC---_1LC0RA", "1RB0RA_1RC0RB_1LD1LC_1RA0LD"]
def run(ctx):
    rng, rep = ctx.rng, ctx.rep
    for k, t in enumerate(CHAMPIONS + KNOWN):
        if ctx.mine(k):
            for m in (1, 2, 3, 7, 64, 300, 1000): one(rep, parse(t), m, True); one(rep, parse(t), m, False)
    i = 0
    while ctx.time_left():
        i += 1; x = rng.random()
        tab = live_table(rng) if x < .6 else random_table(rng) if x < .8 else mod(rng, parse(rng.choice(CHAMPIONS + KNOWN)))
        if rng.random() < .3: tab = [[t if t and t[2] != -1 else (rng.randrange(len(tab[0])), rng.choice([1, -1]), rng.randrange(len(tab))) for t in row] for row in tab]
        one(rep, tab, rng.choice([1, 2, 5, 30, 100, 200, 400]), rng.random() < .7)
