"""Backtracking decider: never condemns a machine that halts."""
from bounded.decide import *
import TM_Enum, Backtracking_Filter as BT, IO, io_pb2
from IO.TM_Record import TM_Record
def ttable(tab): return [[(t[0], 1 if t[1] == 1 else 0, t[2]) if t else (1, 1, -1) for t in row] for row in tab]
def one(rep, tab, steps, width, cap=1000, via=False):
    text = show(tab)
    if via:
        rec = TM_Record(tm_enum=TM_Enum.TM_Enum(IO.parse_tm(text), allow_no_halt=False)); v = BT.backtrack(rec, steps, width); st = rec.proto.status.halt_status
        rep.check(rec.proto.filter.backtrack.result.success == v and (st.is_decided and not st.is_halting) == v and (not v or st.inf_reason == io_pb2.INF_BACKTRACK), "the recorded status differs from the verdict", tm=text)
        rep.check(not rec.proto.status.quasihalt_status.is_decided, "quasihalting is recorded as decided", tm=text); halted = False
    else: r = BT.backtrack_ttable(ttable(tab), steps, width); v, halted = r.success, r.halted
    rep.case((text, steps, width), v); rep.count("infinite" if v else "no verdict")
    if v:
        r = halts_within(tab, cap); rep.check(r is None, "a halting machine is condemned", tm=text, steps=steps, width=width, halts_after=r and r.steps)
    if halted:
        # reported when the start configuration is met: it has to halt within that many steps
        rep.check(halts_within(tab, steps + 1) is not None, "a machine is said to halt but does not", tm=text, steps=steps, width=width)
def run(ctx):
    rng, rep = ctx.rng, ctx.rep
    for k, t in enumerate(CHAMPIONS + LATE):
        if ctx.mine(k):
            for s in (1, 3, 10, 30): one(rep, parse(t), s, 10, 20000); one(rep, parse(t), s, 10, 20000, True)
    for k, tab in enumerate(all_small(2, 2)):
        if ctx.mine(k) and (k // 8) % 4 == 0 and ctx.time_left(): one(rep, tab, 4, 10, 100)
    i = 0
    while ctx.time_left() and not rep.violations: i += 1; one(rep, machine(rng), rng.choice([1, 2, 3, 5, 10, 25]), rng.choice([1, 2, 5, 10, 40]), 1000, i % 7 == 0)
