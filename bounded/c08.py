"""Reverse-engineering decider: never condemns a machine that halts."""
from bounded.decide import *
import TM_Enum, Reverse_Engineer_Filter as RE, IO, io_pb2
from IO.TM_Record import TM_Record
def one(rep, tab, cap=3000, via=False):
    text = show(tab); tm = IO.parse_tm(text)
    if via:
        rec = TM_Record(tm_enum=TM_Enum.TM_Enum(tm, allow_no_halt=False)); RE.filter(rec); v = rec.proto.filter.reverse_engineer.success; st = rec.proto.status.halt_status
        rep.check((st.is_decided and not st.is_halting) == v and (not v or st.inf_reason == io_pb2.INF_REVERSE_ENGINEER), "the recorded status differs from the verdict", tm=text)
        rep.check(not rec.proto.status.quasihalt_status.is_decided, "quasihalting is recorded as decided", tm=text)
    else: v = RE.is_infinite(tm)
    rep.case(text, v); rep.count("infinite" if v else "no verdict")
    if v:
        r = halts_within(tab, cap); rep.check(r is None, "a halting machine is condemned", tm=text, halts_after=r and r.steps)
def run(ctx):
    rng, rep = ctx.rng, ctx.rep
    for k, t in enumerate(CHAMPIONS + LATE):
        if ctx.mine(k): one(rep, parse(t), 20000, True)
    for k, tab in enumerate(all_small(2, 2)):
        if ctx.mine(k) and (k // 8) % 3 == 0 and ctx.time_left(): one(rep, tab, 100)
    i = 0
    while ctx.time_left() and not rep.violations: i += 1; one(rep, machine(rng), 1000, i % 7 == 0)
