"""The whole pipeline: recorded verdicts compared with an independent step-by-step run."""
from bounded.decide import *
from bounded.c10 import checker, sweeper, Slow, alarm
import signal
from optparse import OptionParser
import Macro_Simulator, IO, TM_Enum, Halting_Lib, Exp_Int
from IO.TM_Record import TM_Record
N = 20000
def parse_options(args):
    p = OptionParser(); Macro_Simulator.add_option_group(p); return p.parse_args(list(args))[0]
class Truth:
    """an independent run; `recur` is known exactly if the run is seen to repeat (in place, or shifted, at a new extreme)"""
    def __init__(self, tab, n=N):
        self.seen = {}; r = Ref(tab); recs = []; lo = hi = 0; self.recur = None; ext = []; snaps = {}; nxt = 64; saved = None
        self.visits = {}
        while r.steps < n and not r.halted:
            if saved is not None and r.state == saved[0] and r.pos == saved[1] and {p: v for p, v in r.tape.items() if v} == saved[2]:
                self.cycle(saved[3], saved[4], r); break
            if r.steps == nxt and len(r.tape) < 60: saved = (r.state, r.pos, {p: v for p, v in r.tape.items() if v}, dict(r.last_seen), r.steps); nxt *= 2
            if r.pos > hi or r.pos < lo:
                side = 1 if r.pos > hi else -1; hi = max(hi, r.pos); lo = min(lo, r.pos)
                if len(recs) < 400:
                    recs.append([side, r.state, r.pos, r.steps, dict(r.tape), dict(r.last_seen), r.pos, r.pos])
                    self.shifted(recs, r)
                    if self.recur is not None: break
            for x in recs[-12:]: x[6] = min(x[6], r.pos); x[7] = max(x[7], r.pos)
            r.step()
        self.r = r
    def cycle(self, before, t0, r): self.recur = {q for q, t in r.last_seen.items() if t >= t0}; self.last = dict(r.last_seen)
    def shifted(self, recs, r):
        b = recs[-1]
        for a in recs[-12:-1]:
            if a[0] != b[0] or a[1] != b[1]: continue
            far = a[6] if a[0] == 1 else a[7]; d = b[2] - a[2]
            if all(a[4].get(p, 0) == b[4].get(p + d, 0) for p in range(min(far, a[2]), max(far, a[2]) + 1)): self.cycle(a[5], a[3], r); return
ARGS = [["--no-reverse-engineer"], ["--no-ctl"], ["--no-prover"], ["-r"], ["--limited-rules"], ["--exp-linear-rules", "-r"], ["--no-steps"], ["-b"], ["--lin-min"]]
def options(rng):
    a = []
    for x in ARGS:
        if rng.random() < (.5 if x[0] in ("--no-reverse-engineer", "--no-ctl") else .2): a += x
    a += ["--max-loops", str(rng.choice([1, 10, 100, 300, 1000]))]
    if rng.random() < .8: a += ["--lin-steps", str(rng.choice([0, 0, 0, 1, 2, 5, 20, 127]))]
    if rng.random() < .5: a += ["-n", str(rng.choice([1, 1, 2, 3, 4, 6]))]
    elif rng.random() < .3: a += ["--max-block-mult", str(rng.choice([1, 2, 3]))]
    elif rng.random() < .3: a += ["--block-mult", str(rng.choice([1, 2, 3]))]
    if rng.random() < .2: a += ["--tape-limit", str(rng.choice([1, 5, 20]))]
    return a
def value(f):
    v = Halting_Lib.get_big_int(f); return v if v is None or isinstance(v, int) else ("huge", v)
def small(v, f):
    """v as an int, or None if it is too big to matter"""
    if isinstance(v, tuple): return Exp_Int.try_eval(v[1])
    return v
def one(rep, tab, T, args):
    text = show(tab); rec = TM_Record(tm_enum=TM_Enum.TM_Enum(IO.parse_tm(text), allow_no_halt=False)); o = parse_options(args)
    signal.signal(signal.SIGALRM, alarm); signal.setitimer(signal.ITIMER_REAL, 3)
    try: Macro_Simulator.run_options(rec, o)
    except Slow: rep.count("given up after 3 s"); return
    finally: signal.setitimer(signal.ITIMER_REAL, 0)
    h, q, r = rec.proto.status.halt_status, rec.proto.status.quasihalt_status, T.r; d = dict(tm=text, options=" ".join(args)); rep.case((text, tuple(args)), h.is_decided)
    if not h.is_decided:
        rep.count("undecided"); rep.check(not h.is_halting and not q.is_quasihalting, "an undecided machine is marked halting or quasihalting", **d); return
    if h.is_halting:
        rep.count("halting"); steps, score = value(h.halt_steps), value(h.halt_score); s = small(steps, d); sc = small(score, d)
        if r.halted:
            rep.check(s == r.steps or not o.compute_steps and s in (0, None), "wrong number of steps recorded", recorded=repr(steps), true=r.steps, **d); rep.check(sc == r.score(), "wrong score recorded", recorded=repr(score), true=r.score(), **d)
            rep.check((h.from_state, h.from_symbol) == r.halt_from, "wrong halting transition recorded", recorded=[h.from_state, h.from_symbol], true=list(r.halt_from), **d)
        else: rep.check(T.recur is None and (s is None or s > r.steps or not o.compute_steps and s == 0), "recorded as halting but still running after the recorded number of steps", recorded=repr(steps), **d)
        rep.check(q.is_decided and not q.is_quasihalting, "a halting machine is marked quasihalting", **d); return
    rep.count("infinite"); rep.check(not r.halted, "a halting machine is condemned", reason=int(h.inf_reason), halts_after=r.steps, **d)
    if r.halted or not q.is_decided: return
    rep.count("quasihalting decided"); qs = small(value(q.quasihalt_steps), d) if q.is_quasihalting else None
    if q.is_quasihalting and qs is not None and qs <= r.steps:
        rep.check(r.last_seen.get(q.quasihalt_state, -2) + 1 == qs or (T.recur is not None and q.quasihalt_state not in T.recur and T.last[q.quasihalt_state] + 1 == qs), "wrong quasihalting time", state=q.quasihalt_state, recorded=qs, last_visit=r.last_seen.get(q.quasihalt_state, -1), reason=int(h.inf_reason), **d)
    if T.recur is not None:
        rep.count("quasihalting compared"); gone = {x: t for x, t in T.last.items() if x not in T.recur}
        if not gone: rep.check(not q.is_quasihalting, "recorded as quasihalting but every state recurs", reason=int(h.inf_reason), **d)
        else: rep.check(q.is_quasihalting and qs == max(gone.values()) + 1 and gone.get(q.quasihalt_state) == qs - 1, "wrong quasihalting record", recorded=[bool(q.is_quasihalting), qs, q.quasihalt_state if q.is_quasihalting else None], true=[max(gone.values()) + 1, sorted(gone.items())], reason=int(h.inf_reason), **d)
def looper(rng):
    """a few start-up steps through states that are never used again, then a small machine"""
    base = rng.choice([machine, sweeper])(rng); k = len(base[0]); m = rng.choice([1, 2, 3]); pre = [[(rng.randrange(k), rng.choice([1, -1]), i + 1)] * k for i in range(m)]
    return pre + [[t and (t[0], t[1], t[2] + m if t[2] >= 0 else -1) for t in row] for row in base]
def run(ctx):
    rng, rep = ctx.rng, ctx.rep
    def many(tab, count):
        if len(tab) > 14: return
        T = Truth(tab, N if rng.random() < .2 else 3000)
        for _ in range(count):
            if ctx.time_left() and not rep.violations: one(rep, tab, T, options(rng))
    for i, t in enumerate(CHAMPIONS + LATE):
        if ctx.mine(i): many(parse(t), 8)
    while ctx.time_left() and not rep.violations:
        x = rng.random(); many(looper(rng) if x < .3 else sweeper(rng) if x < .5 else checker(rng) if x < .6 else machine(rng), 4)
