"""Closed-tape-language deciders: never condemn a machine that halts."""
from bounded.decide import *
from bounded.c03 import mk
import CTL_Filter, IO, TM_Enum, io_pb2, signal
from IO.TM_Record import TM_Record
TYPES = ["CTL1", "CTL2", "CTL3", "CTL4"]
class Slow(Exception): pass
def alarm(*a): raise Slow()
from Macro import Turing_Machine as T, Simulator as S
LAST = {}
for _n in TYPES:                       # remember the last table a decider made (when it still builds one)
    _m = getattr(CTL_Filter, _n, None); _c = getattr(_m, "CTL_Table", None)
    if isinstance(_c, type):
        def _mk(n, c):
            class Table(c):
                def __init__(self, *a, **k): c.__init__(self, *a, **k); LAST[n] = self
            return Table
        _m.CTL_Table = _mk(_n, _c)
def inlang(ty, sets, w, blank):
    """w: the cells of one half tape from the head outwards, then blanks for ever"""
    w = list(w)
    while w and w[-1] == blank: w.pop()
    if ty == "CTL1": return all(x in sets for x in w)
    if ty == "CTL3": w = w or [blank]; return w[0] in sets[0] and all(x in sets[1] for x in w[1:])
    k = 1 if ty == "CTL2" else 2
    for n in range(max(len(w) - k, 0), len(w) + 1):
        v = w + [blank] * (n + k - len(w))
        if all(x in sets[0] for x in v[:n]) and all(v[n + j] in sets[1 + j] for j in range(k)): return True
    return False
def closed(rep, tab, ty, block, off, cutoff, back, args):
    """the configurations from the start handed to the decider on all lie in the language it built"""
    t = LAST.get(ty); m = mk(tab)
    if t is None: return
    if block != 1: m = T.Block_Macro_Machine(m, block, off)
    if back: m = T.Backsymbol_Macro_Machine(m)
    o = S.create_default_options(); o.prover = False; sim = S.Simulator(m, o); sim.seek(cutoff)
    for i in range(40):
        if sim.op_state != T.RUNNING: return
        if isinstance(getattr(sim.state, "base_state", sim.state), getattr(T, "OffsetStartState", ())): sim.step(); continue   # known by identity
        if (sim.state, sim.dir) not in dict.keys(t): ok = False
        else:
            sets = dict.__getitem__(t, (sim.state, sim.dir)); ok = True
            for d in (0, 1):
                w = []
                for bl in reversed(sim.tape.tape[d]):
                    if bl.num == float("inf"): break
                    if bl.num > 2000: return
                    w += [bl.symbol] * bl.num
                ok = ok and inlang(ty, sets[d], w, m.init_symbol)
        rep.count("configurations found in the language")
        if not rep.check(ok, "reported closed, but the machine's configuration %d loops after the start is not in the set of tapes" % i, config=str(sim.tape), state=str(sim.state), **args): return
        sim.step()
def one(rep, tab, halts, ty, block, off, cutoff, back):
    LAST.clear()
    text = show(tab); rec = TM_Record(tm_enum=TM_Enum.TM_Enum(IO.parse_tm(text), allow_no_halt=False))
    signal.signal(signal.SIGALRM, alarm); signal.setitimer(signal.ITIMER_REAL, 2)
    try: v = CTL_Filter.filter(rec, ty, block, off, cutoff, back)
    except Slow: rep.count("given up after 2 s"); return
    finally: signal.setitimer(signal.ITIMER_REAL, 0)
    rep.case((text, ty, block, off, cutoff, back), v or halts); rep.count(ty + (" infinite" if v else " no verdict"))
    st = rec.proto.status.halt_status; args = dict(tm=text, variant=ty, block_size=block, offset=off, cutoff=cutoff, backsymbol=back)
    rep.check(bool(st.is_decided and not st.is_halting) == bool(v) and (not v or st.inf_reason == io_pb2.INF_CTL), "the recorded status differs from the verdict", **args)
    rep.check(not st.is_halting and not rec.proto.status.quasihalt_status.is_decided, "a halt or quasihalting is recorded as decided", **args)
    if v:
        if rep.check(not halts, "a halting machine is condemned", halts_after=halts, **args): closed(rep, tab, ty, block, off, cutoff, back, args)
def checker(rng):
    """writes a word of k symbols, comes back over it (or not) and reads it symbol by symbol; halts at the end if it is that word, runs off otherwise"""
    k = rng.choice([2, 3, 4]); n = rng.randint(2, 6); word = [rng.randrange(1, k) if rng.random() < .8 else 0 for _ in range(n)]; word[-1] = rng.randrange(1, k)
    rows = []; d = rng.choice([1, -1]); loop = lambda q: (rng.randrange(k), rng.choice([d, -d]), q)
    # write states 0..n-1, going in direction d
    for i, w in enumerate(word): rows.append([(w, d, i + 1)] + [(rng.randrange(k), d, i + 1)] * (k - 1))
    b = n; out = b + 1 + (n + 1); m = rng.choice([0, 1, 2])
    # come back until a blank that ends the word, or straight ahead by turning round at once
    turn = [(0, -d, b + 1)] + [(rng.randrange(k), -d, b + 1)] * (k - 1); rows.append(turn)
    rev = word[::-1]
    for i, w in enumerate(rev):
        rows.append([(rng.choice([s, s, rng.randrange(k)]), -d, b + 2 + i) if s == w else (rng.randrange(k), rng.choice([1, -1]), out) for s in range(k)])
    rows.append([(1, 1, -1) if s == 0 else (s, d, out) for s in range(k)])
    rows.append([(rng.randrange(k), d, out)] + [(s if rng.random() < .8 else rng.randrange(k), d, out) for s in range(1, k)])
    return rows
def sweeper(rng):
    """goes forth and back over a growing tape while counting in its state, then halts on something specific"""
    n, k = rng.choice([(3, 3), (4, 2), (4, 3), (5, 2)]); tab = [[(rng.choice([s, s, rng.randrange(k)]), rng.choice([1, -1]), rng.choice([q, q, rng.randrange(n)])) for s in range(k)] for q in range(n)]
    for q in range(n): tab[q][0] = (rng.randrange(1, k), rng.choice([1, -1]), rng.randrange(n))
    tab[rng.randrange(n)][rng.randrange(k)] = None; return tab
def run(ctx):
    rng, rep = ctx.rng, ctx.rep; seen = {}
    def halt_time(tab, cap): r = halts_within(tab, cap); return r.steps if r else 0
    def many(tab, h, count):
        k = len(tab[0])
        for _ in range(count):
            if not ctx.time_left() or rep.violations: return
            b = rng.choice([1, 1, 1, 2, 2, 3]) if k == 2 else rng.choice([1, 1, 1, 2])
            one(rep, tab, h, rng.choice(TYPES), b, rng.randrange(b), min(rng.choice([0, 1, 2, 3, 4, 5, 8, 12, 20, 50, 200]), rng.randrange(max(h, 1) + 1) if h else 200), rng.random() < .6)
    for i, t in enumerate(CHAMPIONS + LATE):
        if ctx.mine(i): tab = parse(t); many(tab, halt_time(tab, 100000), 12)
    while ctx.time_left() and not rep.violations:
        x = rng.random(); tab = checker(rng) if x < .3 else sweeper(rng) if x < .5 else machine(rng); h = halt_time(tab, 2000)
        if h <= 3 and rng.random() < (.9 if h else .5): continue
        many(tab, h, 8 if h else 2)
