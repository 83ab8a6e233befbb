"""Enumeration: children against an independent list; whole runs of Enumerator
against the tree they have to emit."""
import tempfile, io, collections
from types import SimpleNamespace
from bounded.lib import *
import IO, TM_Enum, Enumerate, Work_Queue, Halting_Lib
from IO.TM_Record import TM_Record
from Macro import Turing_Machine as T

def table(tm):
    """plain transition table of a Simple_Machine"""
    out = []
    for q in range(tm.num_states):
        row = []
        for s in range(tm.num_symbols):
            t = tm.trans_table[q][s]
            if t.condition == T.UNDEFINED: row.append(None)
            else: row.append((t.symbol_out, 1 if t.dir_out == T.RIGHT else -1 if t.dir_out == T.LEFT else 0, -1 if t.condition == T.HALT else int(t.state_out)))
        out.append(tuple(row))
    return tuple(out)
def build(tab):
    q = [(i, j, t[0], 1 if t[1] == 1 else 0, t[2]) for i, row in enumerate(tab) for j, t in enumerate(row) if t is not None]
    return T.tm_from_quintuples(q, states=list(range(len(tab))), symbols=list(range(len(tab[0]))))
def sane(tm):
    """the metadata the simulators rely on"""
    for q in range(tm.num_states):
        for s in range(tm.num_symbols):
            t = tm.trans_table[q][s]
            if t.num_base_steps != 1 or dict(t.states_last_seen) != {q: 0}: return False
            if t.condition in (T.HALT, T.UNDEFINED) and (int(t.state_out) != -1 or list(t.condition_details) != [(s, q)]): return False
    return True
def children(tab, q, s, allow):
    cells = [t for row in tab for t in row]
    und = sum(t is None for t in cells); df = [t for t in cells if t is not None]
    if not allow and und <= 1: return []
    ns, nk = len(tab), len(tab[0])
    ms = max([0] + [t[2] for t in df]); mk = max([0] + [t[0] for t in df])
    out = []
    for st in range(min(ns, ms + 2)):
        for sy in range(min(nk, mk + 2)):
            for d in ((1, -1) if df else (1,)):
                n = [list(r) for r in tab]; n[q][s] = (sy, d, st); out.append(tuple(tuple(r) for r in n))
    return out
def partial(rng):
    ns, nk = rng.choice([(1, 2), (2, 2), (2, 3), (3, 2), (3, 3), (4, 2), (2, 4), (5, 2), (6, 2), (2, 6), (8, 2), (2, 8), (9, 3)])
    tab = [[None] * nk for _ in range(ns)]
    k = rng.choice([0, 0, 1, 1, 2, 3, ns * nk - 2, ns * nk - 1, rng.randrange(ns * nk)])
    cells = [(i, j) for i in range(ns) for j in range(nk)]; rng.shuffle(cells)
    ms = rng.randrange(ns); mk = rng.randrange(nk)
    for i, j in cells[:max(0, min(k, ns * nk - 1))]:
        tab[i][j] = (1, 1, -1) if rng.random() < .15 else (rng.randrange(mk + 1), rng.choice([1, -1]), rng.randrange(ms + 1))
    und = [c for c in cells if tab[c[0]][c[1]] is None]
    return tab, rng.choice(und)
def check_children(ctx, tab, c, allow):
    rep = ctx.rep; tm = build(tab); te = TM_Enum.TM_Enum(tm, allow_no_halt=allow); d = dict(machine=show(tab), cell=list(c), allow=allow)
    key = tuple(tuple(r) for r in tab)
    got = list(te.enum_children(*c)); gt = [table(x.tm) for x in got]
    rep.check(sorted(map(repr, gt)) == sorted(map(repr, children(tab, c[0], c[1], allow))), "children of an undefined transition differ from tree normal form", got=[show(x) for x in gt][:40], **d)
    rep.check(table(te.tm) == key and te.tm is tm, "expanding a machine changed it", **d)
    rep.check(all(x.allow_no_halt == allow for x in got), "a child lost the allow-no-halt option", **d)
    rep.check(all(sane(x.tm) for x in got), "a child's transition carries wrong metadata", **d)
    if got:
        x = ctx.rng.choice(got); before = [table(y.tm) for y in got]
        x.set_halt_trans(state_in=c[0], symbol_in=c[1]); i = got.index(x); n = [list(r) for r in key]; n[c[0]][c[1]] = (1, 1, -1)
        rep.check(table(x.tm) == tuple(tuple(r) for r in n) and sane(x.tm), "standard halt transition is wrong", **d)
        rep.check([table(y.tm) for k, y in enumerate(got) if k != i] == [b for k, b in enumerate(before) if k != i] and table(te.tm) == key, "children share their tables", **d)
    rep.case((key, c, allow))

class Collect:
    def __init__(self): self.out = []
    def write_record(self, r): self.out.append((table(IO.TM_Record.read_tm(r.proto.tm)), r.proto.status.halt_status.is_decided and r.proto.status.halt_status.is_halting, r.proto.SerializeToString()))
    def flush(self): pass
def verdict(tab, limit, salt):
    """what the stand-in simulator says: deterministic in the table"""
    h = int(hashlib.md5((repr(tab) + salt).encode()).hexdigest(), 16)
    if h % 11 == 0: return ("unknown",)
    r = Ref(tab); r.run(limit)
    if r.halted: return ("halt", r.steps, r.score(), r.halt_from)
    return [("inf", None), ("inf", True), ("inf", False)][h % 3]
def set_status(rec, v, rng):
    st = rec.proto.status
    if v[0] == "halt": Halting_Lib.set_halting(st, v[1], v[2], v[3][0], v[3][1])
    elif v[0] == "inf":
        Halting_Lib.set_not_halting(st, 0)
        if v[1] is True: Halting_Lib.set_inf_recur(st, [], {0: 5})
        elif v[1] is False: Halting_Lib.set_inf_recur(st, [0], {0: 5})
def opts(**k): return SimpleNamespace(**dict(dict(save_freq=7, randomize=False, seed=3, num_enum=None, debug_print_current=False, time=0, allow_no_halt=False), **k))
def check_run(ctx, ns, nk, allow, first, limit, order, num_enum, rnd, cap=4000):
    rep, rng = ctx.rep, ctx.rng; salt = str(rng.random())
    ran = []
    class En(Enumerate.Enumerator):
        def run(self, rec):
            t = table(rec.tm()); ran.append(t); set_status(rec, verdict(t, limit, salt), rng); return rec
    q = Work_Queue.Basic_LIFO_Work_Queue() if order == "lifo" else Work_Queue.Basic_FIFO_Work_Queue()
    w = Collect(); e = En(opts(num_enum=num_enum, randomize=rnd, allow_no_halt=allow, save_freq=rng.choice([1, 5, 1000])), q, w, io.StringIO())
    root = TM_Enum.blank_tm_enum(ns, nk, first_1rb=first, allow_no_halt=allow)
    rt = table(root.tm); d = dict(size=[ns, nk], allow=allow, first_1rb=first, order=order, num_enum=num_enum, randomize=rnd)
    exp0 = [[None] * nk for _ in range(ns)]
    if first: exp0[0][0] = (1, 1, 1)
    rep.check(rt == tuple(tuple(r) for r in exp0), "initial machine is not the blank one", got=show(rt), **d)
    q.push_job(TM_Record(tm_enum=root)); e.continue_enum()
    # expected output
    expected = collections.Counter({rt: 1}); final = collections.Counter(); halts = 0
    for t in ran:
        v = verdict(t, limit, salt)
        if v[0] == "halt":
            halts += 1
            for c in children(t, v[3][0], v[3][1], allow): expected[c] += 1
            n = [list(r) for r in t]; n[v[3][0]][v[3][1]] = (1, 1, -1); final[(tuple(tuple(r) for r in n), True)] += 1
        else: final[(t, False)] += 1
    if num_enum is None: rep.check(collections.Counter(ran) == expected, "machines run differ from the tree (lost or repeated)", missing=[show(x) for x in (expected - collections.Counter(ran))][:3], extra=[show(x) for x in (collections.Counter(ran) - expected)][:3], **d)
    else:
        rest = expected - collections.Counter(ran)
        rep.check(len(ran) == min(num_enum, sum(expected.values())) or not rest, "stopped before the requested number of machines", ran=len(ran), **d)
        for t, k in rest.items(): final[(t, False)] += k
        rep.check(not (collections.Counter(ran) - expected), "a machine was run that is not in the tree, or twice", **d)
    got = collections.Counter((t, h) for t, h, _ in w.out)
    rep.check(got == final, "emitted records differ from the machines enumerated", missing=[show(x[0]) for x in (final - got)][:3], extra=[show(x[0]) for x in (got - final)][:3], **d)
    rep.check(e.tm_num == len(w.out) and e.num_halt == halts and e.num_halt + e.num_unknown + e.num_inf_quasi_unknown + e.num_quasihalt + e.num_infinite == e.tm_num, "statistics do not add up", **d)
    rep.case(("run", ns, nk, allow, first, limit, order, num_enum, rnd, salt)); rep.count("machines enumerated", len(w.out))
    return w
def check_main(ctx, ns, nk, extra, limit):
    """the whole program, real deciders, output file read back"""
    import contextlib
    rep = ctx.rep
    with tempfile.TemporaryDirectory() as tmp:
        out = os.path.join(tmp, "out.pb"); d = dict(size=[ns, nk], options=extra)
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            Enumerate.main(["--states=%d" % ns, "--symbols=%d" % nk, "--outfile=" + out, "--no-output" if False else "--save-freq=1000000", "--max-loops=300", "--lin-steps=100", "--no-steps"][:6] + extra)
        allow = "--allow-no-halt" in extra; first = "--no-first-1rb" not in extra
        recs = []
        with IO.Reader(out) as rd:
            for r in rd:
                h = r.proto.status.halt_status
                recs.append((table(r.tm()), h.is_decided, h.is_halting, (h.from_state, h.from_symbol), Halting_Lib.get_big_int(h.halt_steps) if h.is_halting else None))
        t0 = [[None] * nk for _ in range(ns)]
        if first: t0[0][0] = (1, 1, 1)
        expected = collections.Counter({tuple(tuple(r) for r in t0): 1}); got = collections.Counter()
        for t, dec, h, c, st in recs:
            if dec and h:
                p = [list(r) for r in t]; rep.check(p[c[0]][c[1]] == (1, 1, -1), "halting record lacks its halting transition", machine=show(t), **d)
                p[c[0]][c[1]] = None; t = tuple(tuple(r) for r in p)
                r = Ref(t).run(limit)
                rep.check((not r.halted and (st is None or st > limit)) or (r.halted and r.halt_from == c and r.steps == st), "halting transition in the output is not the one the machine reaches", machine=show(t), **d)
                for x in children(t, c[0], c[1], allow): expected[x] += 1
            got[t] += 1
        rep.check(got == expected, "output of the complete enumeration differs from the tree", missing=[show(x) for x in (expected - got)][:3], extra=[show(x) for x in (got - expected)][:3], **d)
        rep.case(("main", ns, nk, tuple(extra))); rep.count("machines enumerated by the program", len(recs))
def check_continue(ctx, ns, nk, extra, n1):
    """stop after n1 machines, continue from the file: same set as in one go"""
    import contextlib
    rep = ctx.rep
    with tempfile.TemporaryDirectory() as tmp:
        a, b, c = [os.path.join(tmp, x) for x in ("a.pb", "b.pb", "c.pb")]; base = ["--max-loops=300", "--save-freq=1000000"] + extra; sz = ["--states=%d" % ns, "--symbols=%d" % nk]
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            Enumerate.main(sz + base + ["--outfile=" + a]); Enumerate.main(sz + base + ["--outfile=" + b, "--num-enum=%d" % n1])
        rd = lambda f: [(table(r.tm()), r) for r in IO.Reader(f).__enter__()]
        full = collections.Counter(t for t, _ in rd(a)); part = rd(b)
        done = collections.Counter(t for t, r in part if r.proto.status.halt_status.is_decided); todo = [r for t, r in part if not r.proto.status.halt_status.is_decided]
        with IO.Proto.Writer(os.path.join(tmp, "todo.pb")) as w:
            for r in todo: w.write_record(r)
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            Enumerate.main(base + ["--outfile=" + c, "--infile=" + os.path.join(tmp, "todo.pb")])
        tot = done + collections.Counter(t for t, _ in rd(c))
        rep.check(tot == full, "continuing an interrupted enumeration gives a different set of machines", size=[ns, nk], options=extra, num_enum=n1, missing=[show(x) for x in (full - tot)][:3], extra=[show(x) for x in (tot - full)][:3])
        rep.case(("continue", ns, nk, tuple(extra), n1))
def run(ctx):
    rng, rep = ctx.rng, ctx.rep
    jobs = [lambda: check_main(ctx, 2, 2, [], 200), lambda: check_main(ctx, 2, 2, ["--allow-no-halt"], 200), lambda: check_main(ctx, 2, 2, ["--no-first-1rb", "--breadth-first"], 200),
            lambda: check_main(ctx, 2, 2, ["--randomize", "--seed=5"], 200), lambda: check_continue(ctx, 2, 2, [], 5), lambda: check_continue(ctx, 2, 2, ["--allow-no-halt"], 9),
            lambda: check_main(ctx, 8, 2, ["--num-enum=30"], 200), lambda: check_main(ctx, 2, 8, ["--num-enum=30"], 200)]
    for i, j in enumerate(jobs):
        if ctx.mine(i): j()
    if ctx.thorough and ctx.worker == 0: check_main(ctx, 2, 3, [], 2000)
    if ctx.thorough and ctx.worker == 1: check_main(ctx, 3, 2, [], 2000)
    while ctx.time_left() and not rep.violations:
        for _ in range(150):
            if not ctx.time_left(): break
            tab, c = partial(rng); check_children(ctx, tab, c, rng.random() < .4)
        ns, nk = rng.choice([(2, 2), (2, 2), (3, 2), (2, 3)]); n = rng.choice([None, None, 0, 1, 3, 20, 60]) if (ns, nk) == (2, 2) else rng.choice([1, 10, 50, 200])
        check_run(ctx, ns, nk, rng.random() < .4, rng.random() < .6, rng.choice([3, 6, 30]), rng.choice(["lifo", "fifo"]), n, rng.random() < .3)
