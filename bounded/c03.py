"""Macro transitions against an independent run of the base machine on the segment."""
from bounded.lib import *
from Macro import Turing_Machine as T
import IO

def mk(tab):
    q = []
    for s, row in enumerate(tab):
        for y, t in enumerate(row):
            if t is not None: q.append((s, y, t[0], 1 if t[1] == 1 else 0, t[2]))
    return T.tm_from_quintuples(q, list(range(len(tab))), list(range(len(tab[0]))))

def seg_run(tab, cells, pos, state, cap):
    """Run on a finite segment.  Yields the outcome and everything about it."""
    cells = list(cells); n = len(cells); steps = 0; seen = {}; confs = {}; d = None; tr = []
    while True:
        if not (0 <= pos < n): return "run", steps, cells, state, pos, d, seen, None
        if steps > cap: return "cap", steps, cells, state, pos, d, seen, None
        key = (state, pos, tuple(cells))
        if key in confs: return "loop", steps, cells, state, pos, d, seen, confs[key]
        confs[key] = steps
        y = cells[pos]; t = tab[state][y]; seen[state] = steps; q0 = (y, state)
        und = t is None
        if und: t = (1, 1, -1)
        cells[pos] = t[0]; d = t[1]; pos += d; state = t[2]; steps += 1
        if und or state == -1: return ("undef" if und else "halt"), steps, cells, state, pos, d, seen, q0

def flat(x):
    if isinstance(x, tuple): return [z for y in x for z in flat(y)]
    return [x]

def blocks(cells, shape):
    """cells -> nested Block_Symbol of the given nesting of sizes (innermost first)"""
    cur = list(cells)
    for k in shape: cur = [T.Block_Symbol(cur[i:i + k]) for i in range(0, len(cur), k)]
    assert len(cur) == 1
    return cur[0]

def one(rep, d):
    tab = parse(d["tm"]); base = mk(tab); m = base; size = 1
    shape = d["blocks"]
    for i, k in enumerate(shape):
        m = T.Block_Macro_Machine(m, k, offset=d["offset"] or None if i == len(shape) - 1 and not isinstance(d["offset"], str) else None, max_sim_steps_per_symbol=d["lim"]); size *= k
    sym = blocks(d["front"], shape) if shape else d["front"][0]
    state = T.Simple_Machine_State(d["state"]); right = d["dir"] == 1
    if d["offset"] and len(shape) == 1: state = T.OffsetStartState(state, d["offset"]); off = d["offset"]
    else: off = 0 if right else size - 1
    if d["back"] is not None:
        bsym = blocks(d["back"], shape) if shape else d["back"][0]
        m = T.Backsymbol_Macro_Machine(m, max_sim_steps_per_symbol=d["lim2"]); state = T.Backsymbol_Macro_Machine_State(state, bsym)
        cells = d["back"] + d["front"] if right else d["front"] + d["back"]; off = off + size if right else off
    else: cells = list(d["front"])
    tr = m.get_trans_object(sym, state, d["dir"])
    again = m.get_trans_object(sym, state, d["dir"])
    if not rep.check(again is tr or (again.condition, again.num_base_steps, again.dir_out) == (tr.condition, tr.num_base_steps, tr.dir_out), "asking again gives another transition", **d): return
    out, steps, fc, st, pos, dr, seen, extra = seg_run(tab, cells, off, d["state"], 60000)
    rep.count(tr.condition); rep.case(tuple(sorted((k, str(v)) for k, v in d.items())), nontrivial=steps > 1)
    c = tr.condition
    if c == T.GAVE_UP: return
    if c == T.INF_REPEAT:
        rep.check(out in ("loop", "cap"), "infinite repeat reported but the machine %s after %d steps" % (out, steps), **d); return
    want = {"run": T.RUNNING, "halt": T.HALT, "undef": T.UNDEFINED}.get(out)
    if not rep.check(c == want, "reports %s, the machine: %s after %d steps" % (c, out, steps), **d): return
    if not rep.check(tr.num_base_steps == steps, "number of base steps: %r, the machine takes %d" % (tr.num_base_steps, steps), **d): return
    if d["back"] is not None: so = (flat(tr.symbol_out) + flat(tr.state_out.back_symbol)) if tr.dir_out == 1 else (flat(tr.state_out.back_symbol) + flat(tr.symbol_out)); sto = tr.state_out.base_state
    else: so = flat(tr.symbol_out); sto = tr.state_out
    rep.check(so == fc, "symbols differ: %r instead of %r" % (so, fc), **d)
    rep.check(sto == st, "state differs: %r instead of %r" % (int(sto), st), **d)
    rep.check(tr.dir_out == (1 if dr == 1 else 0), "direction differs", **d)
    if c == T.RUNNING: rep.check(pos == (len(cells) if tr.dir_out == 1 else -1), "exit side differs", **d)
    rep.check(dict(tr.states_last_seen) == seen, "last visits: %r instead of %r" % (tr.states_last_seen, seen), **d)
    if c != T.RUNNING: rep.check(tr.condition_details and tuple(tr.condition_details[0]) == extra, "halting cell: %r instead of %r" % (tr.condition_details, extra), **d)
    # the symbols and values of the macro machine
    if d["back"] is None and shape: rep.check(m.eval_symbol(sym) == sum(1 for x in d["front"] if x), "value of a block symbol", **d); rep.check(flat(m.init_symbol) == [0] * size, "blank block", **d)
    if d["back"] is not None: rep.check(m.eval_state(state) == sum(1 for x in d["back"] if x), "value of a back-symbol state", **d)

def counter_table(rng):
    """machines that stay inside the segment for long"""
    ns = rng.choice([3, 4, 5, 6]); nk = rng.choice([2, 3, 3, 4]); tab = random_table(rng, ns, nk, 0.03, 0.02)
    for s in range(ns):     # biased bouncing
        for y in range(nk):
            if tab[s][y] and rng.random() < .5: tab[s][y] = ((y + 1) % nk, 1 if (s + y) % 2 else -1, tab[s][y][2])
    return tab

def gen(rng):
    tab = rng.choice([counter_table, counter_table, live_table, random_table])(rng); ns, nk = len(tab), len(tab[0])
    shape = rng.choice([[], [1], [2], [2], [3], [3], [4], [5], [6], [2, 2], [3, 2], [2, 3], [8]]); back = rng.random() < .55 or not shape
    size = 1
    for k in shape: size *= k
    rc = lambda: [rng.randrange(nk) if rng.random() < .7 else 0 for _ in range(size)]
    return dict(tm=show(tab), blocks=shape, offset=rng.randrange(1, size) if len(shape) == 1 and size > 1 and rng.random() < .2 else 0, front=rc(), back=rc() if back else None, state=rng.randrange(ns), dir=rng.randrange(2),
                lim=rng.choice([10000, 10000, 10000, 1, 2, 3, 5, 127, 128, 129, 130, 300]), lim2=rng.choice([1000, 1000, 1, 2, 4, 128, 130]))

def gaveup_case(rng):
    """a long walk, then a confined inner loop that is given up in a state and
    direction that look like an earlier configuration; halts right after"""
    a = rng.choice([128, 256]); n = a + 6; d = {}
    for i in range(n):
        for y, dr in ((1, -1), (0, 1), (2, 1)): d[i, y] = (y, dr, (i + 1) % n)
    d[a + 1, 0] = (0, -1, a + 2); d[a + 2, 2] = (2, 1, a + 3); d[a + 3, 0] = (0, -1, a + 4); d[a + 4, 2] = (2, 1, a); d[a, 0] = (1, 1, -1)
    return [[d[i, y] for y in range(3)] for i in range(n)]

def direct_gaveup(rep, rng):
    tab = gaveup_case(rng); base = mk(tab); b = T.Block_Macro_Machine(base, 2, max_sim_steps_per_symbol=rng.choice([2, 3, 4])); m = T.Backsymbol_Macro_Machine(b)
    t = m.get_trans_object(T.Block_Symbol((1, 1)), T.Backsymbol_Macro_Machine_State(T.Simple_Machine_State(0), T.Block_Symbol((2, 0))), 1)
    rep.count("give-up case"); rep.case(("giveup", len(tab), b.max_sim_steps_per_symbol))
    out = seg_run(tab, [2, 0, 1, 1], 2, 0, 60000)
    if t.condition == T.INF_REPEAT: rep.check(out[0] in ("loop", "cap"), "infinite repeat reported but the machine %s after %d steps" % (out[0], out[1]), case="inner give-up looks like an earlier configuration", states=len(tab))

def cache_case(rep, rng):
    """transitions stay right when the table of computed transitions is flushed"""
    tab = counter_table(rng); m = T.Block_Macro_Machine(mk(tab), 2); m.max_cells = 3; nk = len(tab[0])
    for _ in range(25):
        f = (rng.randrange(nk), rng.randrange(nk)); s = rng.randrange(len(tab)); dr = rng.randrange(2)
        t = m.get_trans_object(T.Block_Symbol(f), T.Simple_Machine_State(s), dr); out = seg_run(tab, f, 0 if dr else 1, s, 60000)
        if t.condition == T.RUNNING: rep.check((out[0], out[1], out[2], out[3]) == ("run", t.num_base_steps, list(t.symbol_out), t.state_out), "transition wrong after a cache flush", tm=show(tab), front=list(f), state=s, dir=dr)

def run(ctx):
    rng, rep = ctx.rng, ctx.rep
    for _ in range(3): direct_gaveup(rep, rng)
    i = 0
    while ctx.time_left() and not rep.violations and i < (20000 if not ctx.thorough else 10**7):
        one(rep, gen(rng)); i += 1
        if i % 50 == 0: cache_case(rep, rng)
def replay(rep, d):
    v = d["violation"]["data"]
    if "blocks" in v: one(rep, {k: v[k] for k in ("tm", "blocks", "offset", "front", "back", "state", "dir", "lim", "lim2")})
