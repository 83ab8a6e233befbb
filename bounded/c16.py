"""Normal forms: lock-step runs of the original and the converted machine."""
from bounded.lib import *
from bounded.c15 import table, build
import TNF, LNF, Permute, itertools, io, sys, os, tempfile, IO
from Macro import Turing_Machine as T

def perm_table(tab, so, ko, mirror):
    """independent relabelling; halting and undefined cells standardised"""
    inv_s = {o: n for n, o in enumerate(so)}; inv_k = {o: n for n, o in enumerate(ko)}
    out = []
    for q in so:
        row = []
        for s in ko:
            t = tab[q][s]
            if t is None: row.append(None)
            elif t[2] == -1: row.append((1, 1, -1))
            else: row.append((inv_k[t[0]], -t[1] if mirror else t[1], inv_s[t[2]]))
        out.append(tuple(row))
    return tuple(out)
class Run:
    def __init__(self, tab, state, blank): self.tab, self.state, self.blank, self.pos, self.tape, self.halted, self.steps = tab, state, blank, 0, {}, False, 0
    def read(self): return self.tape.get(self.pos, self.blank)
    def step(self):
        t = self.tab[self.state][self.read()]
        self.steps += 1
        if t is None or t[2] == -1: self.halted = True; return None
        self.tape[self.pos] = t[0]; self.pos += t[1]; self.state = t[2]
        return t[1]
def lockstep(rep, a, b, n, what, **d):
    """run b is run a renamed"""
    sm, km, sign = {}, {}, None
    for i in range(n):
        for m, x, y, nm in ((sm, a.state, b.state, "state"), (km, a.read(), b.read(), "symbol")):
            if m.setdefault(x, y) != y or len(set(m.values())) != len(m): rep.fail("%s: %s renamed inconsistently at step %d" % (what, nm, i), **d); return
        da, db = a.step(), b.step()
        if a.halted != b.halted: rep.fail("%s: only one of the machines halts at step %d" % (what, i + 1), **d); return
        if a.halted: break
        if sign is None: sign = da * db
        if sign != da * db: rep.fail("%s: direction differs at step %d" % (what, i), **d); return
    if sign is not None and b.pos != sign * a.pos: rep.fail("%s: head position differs" % what, **d); return
    for p, v in a.tape.items():
        w = b.tape.get((sign or 1) * p, b.blank)
        if km.get(v, w) != w: rep.fail("%s: tapes differ" % what, **d); return
def is_tnf(tab, n):
    """order of first visits, first move right"""
    r = Run(tab, 0, 0); ms, mk = 0, 0
    if tab[0][0] is not None and tab[0][0][2] != -1 and tab[0][0][1] != 1: return False
    for _ in range(n):
        r.step()
        if r.halted: return True
        if r.state > ms + 1 or r.read() > mk + 1: return False
        ms = max(ms, r.state); mk = max(mk, r.read())
    return True
def rnd(rng, big=True):
    f = rng.random()
    if f < .5: t = live_table(rng)
    elif f < .6: t = parse(rng.choice(CHAMPIONS))
    else: t = random_table(rng)
    return tuple(tuple(r) for r in t)
def shuffled(rng, n, fix0):
    xs = list(range(1 if fix0 else 0, n)); rng.shuffle(xs); return ([0] if fix0 else []) + xs
def one(ctx):
    rng, rep = ctx.rng, ctx.rep; C = rep.check
    tab = rnd(rng); tm = build(tab); ns, nk = len(tab), len(tab[0]); d = dict(machine=show(tab))
    so, ko, mir = shuffled(rng, ns, rng.random() < .5), shuffled(rng, nk, rng.random() < .5), rng.random() < .5
    got = TNF.permute_table(tm, so, ko, mir)
    C(table(got) == perm_table(tab, so, ko, mir), "permuted table is wrong", states=so, symbols=ko, mirror=mir, got=got.ttable_str(), **d)
    C(table(tm) == tab, "permuting changed the original", **d)
    # TNF
    mx = rng.choice([0, 1, 5, 50, 300])
    t = TNF.to_TNF(tm, mx)
    C(table(tm) == tab, "normalising changed the original", **d)
    if t is not None:
        tt = table(t); dd = dict(tnf=show(tt), **d)
        lockstep(rep, Run(tab, 0, 0), Run(tt, 0, 0), 400, "tree normal form", **dd)
        C(is_tnf(tt, 400), "result is not in tree normal form", **dd)
        C(int(t.init_state) == 0 and t.init_symbol == 0, "start of the normal form", **dd)
    elif mx >= 300:
        r = Run(tab, 0, 0); vs, vk = {0}, {0}
        for _ in range(250):
            r.step()
            if r.halted: break
            vs.add(r.state); vk.add(r.read())
        C(len(vs) < ns - 1 or len(vk) < nk - 1, "normal form refused although all states and symbols are reached", **d)
    first = tab[0][0]
    if first is not None and first[2] != -1:
        so0, ko0 = shuffled(rng, ns, True), shuffled(rng, nk, True)
        eq = perm_table(tab, so0, ko0, rng.random() < .5); t2 = TNF.to_TNF(build(eq), mx)
        C((t is None) == (t2 is None) and (t is None or table(t) == table(t2)), "equivalent machines got different tree normal forms", other=show(eq), **d)
    rep.case((tab, mx), nontrivial=t is not None)
    # start state permutation
    if rng.random() < .3:
        ms = list(Permute.permute_start_state(tm, 200))
        C(len(ms) == ns, "start-state permutations: wrong number", **d)
        for q, m in enumerate(ms):
            lockstep(rep, Run(tab, q, 0), Run(table(m), 0, 0), 200, "start state %d" % q, got=m.ttable_str(), **d)
        C(table(tm) == tab, "permuting the start state changed the original", **d)
    # LNF
    if ns * nk <= 9 and rng.random() < .5:
        l = LNF.brute_lnf(tm); lt = table(l); dd = dict(lnf=show(lt), start=[int(l.init_state), int(l.init_symbol)], **d)
        C(table(tm) == tab and int(tm.init_state) == 0 and tm.init_symbol == 0, "lexical normal form changed the original", **d)
        lockstep(rep, Run(tab, 0, 0), Run(lt, int(l.init_state), int(l.init_symbol)), 300, "lexical normal form", **dd)
        std = tuple(tuple((1, 1, -1) if t is not None and t[2] == -1 else t for t in r) for r in tab)
        if std == tab:
            best = min(show(perm_table(tab, list(a), list(b), m)) for a in itertools.permutations(range(ns)) for b in itertools.permutations(range(nk)) for m in (False, True))
            C(show(lt) == best, "lexical normal form is not the least", least=best, **dd)
            eq = perm_table(tab, so, ko, mir)
            C(table(LNF.brute_lnf(build(eq))) == lt, "equivalent machines got different lexical normal forms", other=show(eq), **dd)
        rep.case(("lnf", tab))
def cli(mod, argv, stdin=""):
    """the command line tool, run in process; its output lines"""
    out = io.StringIO(); old = sys.argv, sys.stdin, sys.stdout
    sys.argv, sys.stdin, sys.stdout = ["x"] + argv, io.StringIO(stdin), out
    try: mod.main()
    finally: sys.argv, sys.stdin, sys.stdout = old
    return [l.strip() for l in out.getvalue().splitlines() if l.strip()]
def tools(ctx):
    """what the three tools print is what the conversions give, one line per machine, in order"""
    rep, rng = ctx.rep, ctx.rng
    tms = [IO.parse_tm(show(rnd(rng))) for _ in range(4)]; text = "".join(t.ttable_str() + "\n" for t in tms)
    def tnf(t):
        r = TNF.to_TNF(t, 1000)
        return r.ttable_str() if r else "Failed to find TNF for " + t.ttable_str()
    def perms(t):
        return [m.ttable_str() for m in Permute.permute_start_state(t, 1000)]
    d = dict(machines=text)
    want = [tnf(t) for t in tms]
    rep.check(cli(TNF, [], text) == want, "TNF tool (standard input): wrong lines", **d)
    rep.check(cli(TNF, [tms[0].ttable_str()]) == want[:1], "TNF tool (argument): wrong lines", **d)
    rep.check(cli(Permute, [], text) == sum((perms(t) for t in tms), []), "Permute tool (standard input): wrong lines", **d)
    rep.check(cli(Permute, [tms[0].ttable_str()]) == perms(tms[0]), "Permute tool (argument): wrong lines", **d)
    small = [t for t in tms if t.num_states * t.num_symbols <= 6]
    with tempfile.TemporaryDirectory() as tmp:
        f = os.path.join(tmp, "in.txt"); open(f, "w").write("".join(t.ttable_str() + "\n" for t in small))
        want = []
        for t in small:
            m = LNF.brute_lnf(t); want.append(f"{m.init_state}{m.init_symbol}: {m.ttable_str()}")
        rep.check(cli(LNF, [f]) == want, "LNF tool: wrong lines", **d)
    rep.case(("tools", text))
def run(ctx):
    tools(ctx)
    while ctx.time_left() and not ctx.rep.violations: one(ctx)
