"""Closed-position-set decider: never condemns a machine that halts."""
from bounded.decide import *
from bounded.c10 import checker, sweeper, Slow, alarm
import CPS, CPS_Filter, IO, TM_Enum, io_pb2, signal, types
from IO.TM_Record import TM_Record
def one(rep, tab, halts, b, w, via, lim=(3000, 40, 1000, 2000)):
    text = show(tab); signal.signal(signal.SIGALRM, alarm); signal.setitimer(signal.ITIMER_REAL, 3)
    try:
        if via:
            rec = TM_Record(tm_enum=TM_Enum.TM_Enum(IO.parse_tm(text), allow_no_halt=False)); a = types.SimpleNamespace(min_block_size=1, max_block_size=b, max_window_size=None if via == 1 else w, max_steps=lim[0], max_iters=lim[1], max_configs=lim[2], max_edges=lim[3])
            CPS_Filter.filter_all(rec, a); st, v = rec.proto.status, rec.proto.filter.closed_graph.result.success
        else:
            st, res = io_pb2.BBStatus(), io_pb2.ClosedGraphFilterResult(); CPS.filter(IO.parse_tm(text), b, w, *lim, res, st); v = res.success
    except Slow: rep.count("given up after 3 s"); return
    finally: signal.setitimer(signal.ITIMER_REAL, 0)
    rep.case((text, b, w, via), v or halts); rep.count("infinite" if v else "no verdict"); args = dict(tm=text, block_size=b, window_size=w, via=via, limits=list(lim)); h = st.halt_status
    rep.check(bool(h.is_decided and not h.is_halting) == bool(v) and (not v or h.inf_reason == io_pb2.INF_CLOSED_GRAPH) and not h.is_halting, "the recorded status differs from the verdict", **args)
    rep.check(not st.quasihalt_status.is_decided, "quasihalting is recorded as decided", **args)
    if v and rep.check(not halts, "a halting machine is condemned", halts_after=halts, **args) and not via: closed(rep, tab, b, w, lim)
def closed(rep, tab, b, w, lim):
    """a set reported closed has to be closed: every window, run on its own, leaves it into a window of the set"""
    sim = CPS.ClosedGraphSim(IO.parse_tm(show(tab)), b, w, *lim, io_pb2.ClosedGraphFilterResult()); sim.run()
    if not sim.result.success: return
    try: conf = {(int(c.state), int(c.dir), tuple(int(x) for x in c.window), c.pos) for c in sim.transitions}; cont = {d: {k: set(v) for k, v in sim.continuations[d].items()} for d in (0, 1)}
    except AttributeError: return                # kept in another way: nothing to look at
    args = dict(tm=show(tab), block_size=b, window_size=w, limits=list(lim)); bl = (0,) * b
    far = lambda win, d, i: tuple(win[i * b:(i + 1) * b]) if d == 0 else tuple(win[len(win) - (i + 1) * b:len(win) - i * b])
    if not rep.check((0, 1, (0,) * w, w - b) in conf and all(bl in cont[d].get(bl, ()) for d in (0, 1)), "the closed set does not contain the blank start", **args): return
    for q, d, win, pos in conf:
        a = list(win); p = pos; s = q; n = 0
        while 0 <= p < w and n < 4000:
            t = tab[s][a[p]]; n += 1
            if not rep.check(t is not None and t[2] >= 0, "a window of the closed set halts", window=str((q, d, win, pos)), **args): return
            a[p] = t[0]; p += t[1]; s = t[2]
        if 0 <= p < w: continue                  # stays inside
        e = 1 if p >= w else 0; g = 1 - e; dropped = far(a, g, 0); rep.count("windows of closed sets")
        ok = dropped in cont[g].get(far(a, g, 1), ()) and cont[g].get(far(win, g, 0), set()) <= cont[g].get(dropped, set())
        for f in cont[e].get(far(win, e, 0), ()):
            nw = tuple(a[b:]) + f if e == 1 else f + tuple(a[:w - b]); ok = ok and (s, e, nw, w - b if e == 1 else b - 1) in conf
        if not rep.check(ok, "the set is reported closed but is not closed under a step", window=str((q, d, win, pos)), **args): return
def run(ctx):
    rng, rep = ctx.rng, ctx.rep
    def many(tab, h, count):
        for _ in range(count):
            if not ctx.time_left() or rep.violations: return
            b = rng.choice([1, 1, 2, 2, 3, 4]); w = rng.choice([2 * b, 2 * b, 2 * b + 1, 3 * b, 3 * b + 1, 4 * b]); x = rng.random(); one(rep, tab, h, b, w, 1 if x < .05 else 2 if x < .08 else 0, rng.choice([(3000, 40, 1000, 2000)] * 3 + [(200, 40, 1000, 2000), (3000, 1, 1000, 2000), (3000, 2, 1000, 2000), (3000, 40, 3, 2000), (3000, 40, 20, 2000), (3000, 40, 1000, 2), (3000, 40, 1000, 10), (5, 40, 1000, 1000), (20, 40, 1000, 1000)]))
    for i, t in enumerate(CHAMPIONS + LATE):
        if ctx.mine(i): tab = parse(t); r = halts_within(tab, 100000); many(tab, r.steps if r else 0, 10)
    while ctx.time_left() and not rep.violations:
        x = rng.random(); tab = checker(rng) if x < .2 else sweeper(rng) if x < .5 else machine(rng); r = halts_within(tab, 2000); h = r.steps if r else 0
        if h and h <= 3 and rng.random() < .9: continue
        many(tab, h, 6 if h else 1)
