"""Contracts of the closed-tape-language deciders CTL1..CTL4 (C10).

A macro configuration: state q, facing direction d, two sides of cells (nearest
first).  A table is has(q, d) and inn(q, d, side, slot, symbol).  What a table
describes (the tape language of each variant) is `matches`, stated on cells:
  CTL1  A*      CTL2  A* B      CTL3  A B*      CTL4  A* B C      (then blanks)
The postcondition is about one arbitrary configuration: if the final table
describes it, its transition runs and the final table describes the next one;
and the table describes the start configuration."""
import ast, z3
from pyvc.engine import *
from pyvc.contract import *
from . import ttable as TT
TMM = "Macro.Turing_Machine"; I = z3.IntSort(); B = z3.BoolSort()
RUNS = z3.Function("runs", I, I, I, B); OY, OQ, OD = [z3.Function("out_" + x, I, I, I, I) for x in ("symbol", "state", "dir")]     # (symbol, state, dir)
BL = z3.Int("blank_symbol")
SD, SN = z3.Function("cell", I, I, I), z3.Function("next_cell", I, I, I)        # (side, i) of the arbitrary configuration and of its successor
S0 = z3.Function("start_cell", I, I, I)
def k01(k):
    if isinstance(k, bool): return z3.IntVal(int(k))
    if is_zbool(k): return Ite(k, z3.IntVal(1), z3.IntVal(0))
    return zi(k)
# ---- the four tape languages ---------------------------------------------------------
SLOTS = {1: 1, 2: 2, 3: 2, 4: 3}
def lang(v, inn, q, d, s, cell, n):
    """side s of a configuration in (q, d), with witness length n, as a list of conditions"""
    slot = lambda l, y: inn(q, d, z3.IntVal(s), z3.IntVal(l), y)
    fa = lambda p: Forall([I], p, patterns=lambda i: [cell(s, i)])
    S = z3.IntVal(s); c = lambda i: cell(S, i); fa = lambda p: Forall([I], p, patterns=lambda i: [cell(S, i)])
    if v == 1: return [fa(lambda i: Implies(And(0 <= i, i < n), slot(0, c(i)))), fa(lambda i: Implies(i >= n, c(i) == BL))]
    if v == 2: return [fa(lambda i: Implies(And(0 <= i, i < n), slot(0, c(i)))), slot(1, c(n)), fa(lambda i: Implies(i > n, c(i) == BL))]
    if v == 3: return [slot(0, c(z3.IntVal(0))), fa(lambda i: Implies(And(1 <= i, i <= n), slot(1, c(i)))), fa(lambda i: Implies(i > n, c(i) == BL))]
    return [fa(lambda i: Implies(And(0 <= i, i < n), slot(0, c(i)))), slot(1, c(n)), slot(2, c(n + 1)), fa(lambda i: Implies(i > n + 1, c(i) == BL))]
def matches(E, v, T, q, d, cell, ns):
    out = [T.fields["has"](q, d)] + [ns[s] >= 0 for s in (0, 1)]
    for s in (0, 1): out += lang(v, T.fields["inn"], q, d, s, cell, ns[s])
    return And(*[zb(x.as_z3(E) if isinstance(x, Forall) else x) for x in out])
def parts(E, v, T, q, d, cell, ns):
    out = [("the state and direction are in the table", T.fields["has"](q, d))]
    for s in (0, 1): out += [("%s side: part %d of the language" % (("left", "right")[s], k), c) for k, c in enumerate(lang(v, T.fields["inn"], q, d, s, cell, ns[s]))]
    return out
def next_lengths(v, y, q, d, n):
    """witness lengths of the successor"""
    same = OD(y, q, d) == d; r = []
    for s in (0, 1):
        front = d == s
        pop = Ite(n[s] > 0, n[s] - 1, 0); top = Ite(n[s] > 0, n[s], 1) if v == 1 else n[s]
        r.append(Ite(front, Ite(same, pop, top), Ite(same, n[s] + 1, n[s])))
    return r
def next_cells(E, q, d, y):
    """the successor's cells: the read cell is replaced; moving on takes it to the other side"""
    o = OY(y, q, d); same = OD(y, q, d) == d
    for s in (0, 1):
        S = z3.IntVal(s); front = d == s
        val = lambda i: Ite(front, Ite(same, SD(S, i + 1), Ite(i == 0, o, SD(S, i))), Ite(same, Ite(i == 0, o, SD(S, i - 1)), SD(S, i)))
        E.assume(Forall([I], lambda i: Implies(i >= 0, SN(S, i) == val(i)), patterns=lambda i: [SN(S, i)]))
        for x in (0, 1): E.assume(SN(S, z3.IntVal(x)) == val(z3.IntVal(x)))
# ---- tables ------------------------------------------------------------------------------
def ctab(E, empty=False):
    o = Obj(E, "CTab", {}); thavoc(E, o, "has"); thavoc(E, o, "inn")
    if empty: o.fields.update(has=lambda a, b: z3.BoolVal(False), inn=lambda a, b, s, l, y: z3.BoolVal(False))
    return o
def thavoc(E, o, f):
    if f == "has": h = E.func("has", I, I, B); o.fields["has"] = lambda a, b: h(a, b)
    else: g = E.func("inn", I, I, I, I, I, B); o.fields["inn"] = lambda a, b, s, l, y: g(a, b, s, l, y)
    return True
def sane(o): return Forall([I] * 5, lambda a, b, s, l, y: Implies(o.fields["inn"](a, b, s, l, y), o.fields["has"](a, b)), patterns=lambda a, b, s, l, y: [o.fields["inn"](a, b, s, l, y)])
def key(k):
    if not (isinstance(k, tuple) and len(k) == 2): raise Unsupported("table key")
    return zi(k[0]), zi(k[1])
def ctab_get(E, o, k):
    q, d = key(k); h = o.fields["has"]
    if E.ghost.get("keys", (None,))[0] is o: E.prove("a key of the table being iterated over", h(q, d)); return Obj(E, "CEnt", {"t": o, "q": q, "d": d})
    E.note_write("field", o, "has"); o.fields["has"] = lambda a, b: Or(And(a == q, b == d), h(a, b)); return Obj(E, "CEnt", {"t": o, "q": q, "d": d})
def ctab_set(E, o, k, v):
    q, d = key(k)
    if not (isinstance(v, Obj) and v.cls == "CInit"): raise Unsupported("stored sets")
    h, inn, f = o.fields["has"], o.fields["inn"], v.fields["inn"]; E.note_write("field", o, "has"); E.note_write("field", o, "inn")
    o.fields.update(has=lambda a, b: Or(And(a == q, b == d), h(a, b)), inn=lambda a, b, s, l, y: Ite(And(a == q, b == d), f(s, l, y), inn(a, b, s, l, y))); return True
def cent_get(E, o, s):
    s = k01(s); E.prove("side index", And(s >= 0, s <= 1)); return Obj(E, "CSide", dict(o.fields, s=s))
def cside_get(E, o, l):
    if SLOTS[E.ghost["v"]] == 1: raise Unsupported("slot")
    if not (isinstance(l, int) and 0 <= l < SLOTS[E.ghost["v"]]): raise Unsupported("slot index")
    return Obj(E, "CSet", dict(o.fields, l=z3.IntVal(l)))
def as_set(E, o):
    if not isinstance(o, Obj): raise Unsupported("set operand")
    if o.cls == "CSide" and SLOTS[E.ghost["v"]] == 1: return Obj(E, "CSet", dict(o.fields, l=z3.IntVal(0)))
    if o.cls != "CSet": raise Unsupported("set operand")
    return o
def members(o): F = o.fields; inn = F["t"].fields["inn"]; return lambda y: inn(F["q"], F["d"], F["s"], F["l"], y)
def put(E, o, m):
    F = o.fields; t = F["t"]; inn = t.fields["inn"]; q, d, s, l = F["q"], F["d"], F["s"], F["l"]; E.note_write("field", t, "inn")
    t.fields["inn"] = lambda a, b, c, e, y: Or(inn(a, b, c, e, y), And(a == q, b == d, c == s, e == l, m(y)))
def cset_attr(E, o, name):
    if name == "add": return lambda E, y: (put(E, as_set(E, o), lambda x, y=zi(y): x == y), None)[1]
    if name == "update": return lambda E, x: (put(E, as_set(E, o), members(as_set(E, x))), None)[1]
    return MISSING
def cset_iter(E, o):
    o = as_set(E, o); n = E.int("set_size"); el = E.func("element", I, I); ix = E.func("index_of", I, I); m = members(o); E.assume(n >= 0)
    E.assume(Forall([I], lambda y: Implies(m(y), And(0 <= ix(y), ix(y) < n, el(ix(y)) == y)), patterns=lambda y: [ix(y)])); E.assume(Forall([I], lambda k: Implies(And(0 <= k, k < n), m(el(k))), patterns=lambda k: [el(k)]))
    g = E.ghost; y = g["y"]; E.assume(Implies(m(y), And(0 <= ix(y), ix(y) < n, el(ix(y)) == y))); g["set"] = (o, ix); return n, lambda k: el(zi(k))
def ctab_iter(E, o):
    g = E.ghost; n = E.int("table_size"); kq, kd, ix = E.func("key_state", I, I), E.func("key_dir", I, I), E.func("key_index", I, I, I); h = o.fields["has"]; E.assume(n >= 0)
    E.assume(Forall([I, I], lambda q, d: Implies(h(q, d), And(0 <= ix(q, d), ix(q, d) < n, kq(ix(q, d)) == q, kd(ix(q, d)) == d)), patterns=lambda q, d: [ix(q, d)])); q, d = g["q"], g["d"]; E.assume(Implies(h(q, d), And(0 <= ix(q, d), ix(q, d) < n, kq(ix(q, d)) == q, kd(ix(q, d)) == d)))
    E.assume(Forall([I], lambda k: Implies(And(0 <= k, k < n), h(kq(k), kd(k))), patterns=lambda k: [kq(k)])); g["keys"] = (o, ix)
    def at(k): k = zi(k); E.assume(And(kd(k) >= 0, kd(k) <= 1)); return (kq(k), kd(k))
    return n, at
def ctab_eq(E, a, b):
    if not (isinstance(b, Obj) and b.cls == "CTab" and isinstance(a, Obj) and a.cls == "CTab"): return False
    r = E.bool("tables_equal"); F, G = a.fields, b.fields; g = E.ghost
    E.assume(Implies(r, And(Forall([I, I], lambda q, d: F["has"](q, d) == G["has"](q, d), patterns=lambda q, d: [F["has"](q, d), G["has"](q, d)]).as_z3(E), Forall([I] * 5, lambda q, d, s, l, y: F["inn"](q, d, s, l, y) == G["inn"](q, d, s, l, y), patterns=lambda q, d, s, l, y: [F["inn"](q, d, s, l, y), G["inn"](q, d, s, l, y)]).as_z3(E)))); return r
EX = {("new", "CTL_Table"): lambda E, c, args, kw: ctab(E, True), ("CTab", "getitem"): ctab_get, ("CTab", "setitem"): ctab_set, ("CTab", "havoc"): thavoc, ("CTab", "iter"): ctab_iter, ("CTab", "eq"): ctab_eq, ("CEnt", "getitem"): cent_get, ("CSide", "getitem"): cside_get,
      ("CSide", "attr"): cset_attr, ("CSet", "attr"): cset_attr, ("CSide", "iter"): cset_iter, ("CSet", "iter"): cset_iter, ("external", "time.time"): lambda E, *a: E.int("now")}
# ---- the machine ---------------------------------------------------------------------------
class GetTrans(Contract):
    module = TMM; qualname = "Turing_Machine.get_trans_object"; params = ["self", "symbol_in", "state_in", "dir_in"]; assumed = True; why = "macro transitions: verified for C03"
    def apply_call(self, E, f, argv):
        y, q, d = [zi(x) for x in argv[1:]]; E.assume(And(OD(y, q, d) >= 0, OD(y, q, d) <= 1)); c = "Running" if E.branch(RUNS(y, q, d)) else "Halt"
        return E.new(TMM, "Transition", condition=c, condition_details=PyList(E, []), symbol_out=OY(y, q, d), state_out=OQ(y, q, d), dir_out=OD(y, q, d), num_base_steps=E.int("steps"), states_last_seen=Opaque("l"))
class CTL(Contract):
    qualname = "CTL"; feas_ms = 150; budget_s = 500; exts = EX
    def __init__(self, v): self.v = v; self.module = "CTL%d" % v; self.params = ["machine", "config", "end_time", "verbose"] if v < 3 else ["machine", "config", "verbose"]
    def args(self, E):
        v = self.v; g = E.ghost; q, d = E.int("q"), E.case(0, 1); n = [E.int("n0"), E.int("n1")]; E.assume(And(n[0] >= 0, n[1] >= 0)); d = z3.IntVal(d); y = SD(d, z3.IntVal(0)); g.update(v=v, q=q, d=d, n=n, y=y, done=[]); next_cells(E, q, d, y); E.assume(And(OD(y, q, d) >= 0, OD(y, q, d) <= 1))
        mach = E.new(TMM, "Turing_Machine", init_symbol=BL); q0 = E.int("q0"); d0 = z3.IntVal(E.case(0, 1)); n0 = [E.int("m0"), E.int("m1")]; E.assume(And(n0[0] >= 0, n0[1] >= 0)); g.update(q0=q0, d0=d0, n0=n0)
        cfg = Obj(E, "Config", {"state": q0, "dir": d0})
        # the part before the main loop and the part from it on are explored separately: in the second, the start configuration is
        # arbitrary and only known through the loop invariant (its symbol lists are left out, and nothing is proved at loop entry)
        g["part"] = E.choose(2) if v <= 2 else None
        if g["part"] == 1: cfg.fields["tape"] = PyList(E, [PyList(E, []), PyList(E, [])])
        elif v <= 2: cfg.fields["tape"] = PyList(E, [self.side(E, s) for s in (0, 1)])
        else:
            f = E.func("init", I, I, I, B); cfg.fields["init_sets"] = Obj(E, "CInit", {"inn": lambda s, l, y: f(s, l, y)}); T = NS(fields={"has": lambda a, b: z3.BoolVal(True), "inn": lambda a, b, s, l, y: f(s, l, y)}); E.assume(matches(E, v, T, q0, d0, S0, n0))
        kw = dict(machine=mach, config=cfg, verbose=False)
        if v < 3: kw["end_time"] = E.int("end_time")
        return NS(**kw)
    def side(self, E, s):
        """symbols listed for one side of the start (nearest first), covering its cells"""
        n = E.int("listed%d" % s); f = E.func("listed%d" % s, I, I); at = E.func("listed_at%d" % s, I, I); m = E.ghost["n0"][s]; S = z3.IntVal(s); E.assume(n >= 0); sq = SymSeq(E, lambda i: f(i), n, "list")
        if self.v == 1:
            E.assume(Forall([I], lambda i: Implies(And(0 <= i, i < m), And(0 <= at(i), at(i) < n, f(at(i)) == S0(S, i))), patterns=lambda i: [S0(S, i)])); E.assume(Forall([I], lambda i: Implies(i >= m, S0(S, i) == BL), patterns=lambda i: [S0(S, i)]))
        else:
            E.assume(Forall([I], lambda i: Implies(And(0 <= i, i < m), And(0 <= at(i), at(i) < n - 1, f(at(i)) == S0(S, i))), patterns=lambda i: [S0(S, i)])); E.assume(Forall([I], lambda i: Implies(i > m, S0(S, i) == BL), patterns=lambda i: [S0(S, i)])); E.assume(S0(S, m) == Ite(n == 0, BL, f(n - 1))); E.assume(Implies(n == 0, m == 0))
        return sq
    def start(self, E, T): g = E.ghost; return [("the start: " + l, c) for l, c in parts(E, self.v, T, g["q0"], g["d0"], S0, g["n0"])]
    def goal(self, E, T):
        g = E.ghost; y, q, d = g["y"], g["q"], g["d"]; return And(RUNS(y, q, d), matches(E, self.v, T, OQ(y, q, d), OD(y, q, d), SN, next_lengths(self.v, y, q, d, g["n"])))
    def goals(self, E, T, hyp):
        g = E.ghost; y, q, d = g["y"], g["q"], g["d"]; out = [("a described configuration runs", Implies(hyp, RUNS(y, q, d)))]
        for l, c in parts(E, self.v, T, OQ(y, q, d), OD(y, q, d), SN, next_lengths(self.v, y, q, d, g["n"])):
            if isinstance(c, Forall): c = Forall(c.sorts, lambda i, b=c.body: Implies(hyp, b(i)), patterns=c.patterns)
            else: c = Implies(hyp, c)
            out.append(("the next configuration is described: " + l, c))
        return out
    def slot_of(self, E):
        """where the symbol read by the arbitrary configuration comes from, as (slot, condition)"""
        g = E.ghost; n = Ite(g["d"] == 0, g["n"][0], g["n"][1]); return {1: [(0, n > 0)], 2: [(0, n > 0), (1, n == 0)], 3: [(0, z3.BoolVal(True))], 4: [(0, n > 0), (1, n == 0)]}[self.v]
    def loops(self):
        v = self.v; g0 = lambda E: E.ghost
        def tabs(env):
            a, b = env.fr.locals.get("table", MISSING), env.fr.locals.get("new_table", MISSING)
            if not (isinstance(b, Obj) and b.cls == "CTab"): raise Unsupported("tables")
            return a, b
        def m_of(E, T):
            """a Boolean standing for `the table describes the arbitrary configuration`"""
            g = E.ghost; ms = g.setdefault("ms", {})
            if T.oid not in ms: m = E.bool("described"); E.assume(m == matches(E, v, T, g["q"], g["d"], SD, g["n"])); ms[T.oid] = m
            return ms[T.oid]
        # initial symbols
        def inv0(E, env):
            g = E.ghost; T = tabs(env)[1]; it = env.extra["it"]; k = zi(env.extra["k"]); s = z3.IntVal(env.d) if isinstance(env.d, int) else zi(env.d); f = T.fields["inn"]; old = g["T0"]
            return [("symbols listed so far", Forall([I], lambda j: Implies(And(0 <= j, j < k), f(g["q0"], g["d0"], s, z3.IntVal(0), zi(it.get(j)))), patterns=lambda j: [zi(it.get(j))])), ("nothing is lost", Forall([I, I, I], lambda c, l, y: Implies(old(g["q0"], g["d0"], c, l, y), f(g["q0"], g["d0"], c, l, y)), patterns=lambda c, l, y: [f(g["q0"], g["d0"], c, l, y)])), ("entries only under keys", sane(T)), ("key kept", Implies(g["H0"](g["q0"], g["d0"]), T.fields["has"](g["q0"], g["d0"]))), ("key made", Implies(k > 0, T.fields["has"](g["q0"], g["d0"])))]
        def pre0(E, env): T = tabs(env)[1]; E.ghost.update(T0=T.fields["inn"], H0=T.fields["has"])
        def fr(E, f): t = f.locals.get("new_table"); return [(t, "has"), (t, "inn")] if isinstance(t, Obj) else []
        def hv(E, fr, n):
            x = fr.locals[n]
            if isinstance(x, (Obj, tuple, Opaque, str)): return Opaque("loop variable")
            return MISSING
        hk = lambda E, fr, n: fr.locals[n] if n in ("new_table", "table") else hv(E, fr, n)
        # main loop
        def inv1(E, env):
            T, N = tabs(env); g = E.ghost; g["seen1"] = g.get("seen1", 0) + 1
            if g["part"] == 1 and g["seen1"] == 1: return []
            out = self.start(E, N) + [("entries only under keys", sane(N))]
            if isinstance(T, Obj): out += self.goals(E, N, m_of(E, T))
            return out
        def head1(E, env):
            if E.ghost["part"] == 0: raise PathEnd("loop entry reached")
        def hv1(E, fr, n):
            if n == "new_table": return ctab(E)
            if n == "table":
                if fr.locals[n] is None and E.choose(2) == 0: return None
                return ctab(E)
            return hv(E, fr, n)
        def keyed(E, env):
            """the arbitrary configuration's key is before position k of the iteration"""
            T, ix = E.ghost["keys"]; return ix(E.ghost["q"], E.ghost["d"])
        def inv2(E, env):
            T, N = tabs(env); x = keyed(E, env); k = zi(env.extra["k"]); return self.goals(E, N, And(m_of(E, T), x < k)) + [("entries only under keys", sane(N))]
        def head2(E, env): E.ghost.update(kk=zi(env.extra["k"]), done=[])
        def inv3(E, env):
            g = E.ghost; T, N = tabs(env); x = keyed(E, env); o, ix = g["set"]; l = o.fields["l"].as_long() if not isinstance(o.fields["l"], int) else o.fields["l"]; k = zi(env.extra["k"]); m = m_of(E, T)
            E.prove("the set iterated over belongs to the old table, current key, facing side", And(o.fields["t"] is T, o.fields["s"] == o.fields["d"])) if g.get("chk") is not o else None; g["chk"] = o
            proc = Or(*([c for s, c in self.slot_of(E) if s in g["done"]] + [And(c, ix(g["y"]) < k) for s, c in self.slot_of(E) if s == l])); return self.goals(E, N, And(m, Or(x < g["kk"], And(x == g["kk"], proc)))) + [("entries only under keys", sane(N))]
        def ex3(E, env): g = E.ghost; l = g["set"][0].fields["l"]; g["done"] = g["done"] + [l.as_long()]
        def inv4(E, env):
            T, N = tabs(env); g = E.ghost; k = zi(env.extra["k"]); F, G = T.fields, N.fields; ix = g["keys"][1]; return self.goals(E, N, m_of(E, T)) + [("entries only under keys", sane(N)), ("old entries so far are kept", Forall([I, I, I], lambda s, l, y: Implies(And(ix(g["q0"], g["d0"]) < k, s >= 0, s <= 1, l >= 0, l < SLOTS[v], F["inn"](g["q0"], g["d0"], s, l, y)), G["inn"](g["q0"], g["d0"], s, l, y)), patterns=lambda s, l, y: [F["inn"](g["q0"], g["d0"], s, l, y)])), ("old keys so far are kept", Implies(And(ix(g["q0"], g["d0"]) < k, F["has"](g["q0"], g["d0"])), G["has"](g["q0"], g["d0"])))]
        def pre4(E, env):
            g = E.ghost; T, ix = g["keys"]; E.assume(Implies(T.fields["has"](g["q0"], g["d0"]), And(0 <= ix(g["q0"], g["d0"]), ix(g["q0"], g["d0"]) < zi(env.extra["n"]))))
        def ex1(E, env): E.ghost["final"] = env.fr.locals["table"]
        L = []
        if v <= 2: L.append(Loop("listed symbols", inv0, pre=pre0, frame=fr, havoc_local=hk))
        L += [Loop("iterate", inv1, head=head1, havoc_local=hv1, exit=ex1, match=lambda E, s, fr: isinstance(s, ast.While), bind_unbound=lambda E, fr, n, k: MISSING), Loop("keys", inv2, head=head2, frame=fr, havoc_local=hk)]
        L += [Loop("symbols %d" % l, inv3, frame=fr, havoc_local=hk, exit=ex3) for l in range(2 if v in (2, 4) else 1)]
        return L + [Loop("union", inv4, pre=pre4, frame=fr, havoc_local=hk)]
    def post(self, E, old, a, r):
        if not (isinstance(r, tuple) and len(r) == 2): raise Unsupported("result")
        if r[0] is False: return []
        if r[0] is not True: raise Unsupported("result")
        T = E.ghost["final"]; return self.start(E, T) + self.goals(E, T, E.ghost["ms"][T.oid])
CONTRACTS = [CTL(1), CTL(2), CTL(3), CTL(4), GetTrans()]
LEMMAS = []
