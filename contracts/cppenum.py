"""Contracts of cpp/src/turing_machine.* and cpp/src/enumerator.* (C23): the
machine constructors with their book-keeping, the expansion of an undefined
cell, the enumeration loop."""
import z3
from pyvc.engine import *
from pyvc.contract import *
from . import cppcommon as CC
M = "cpp"; I = z3.IntSort(); B = z3.BoolSort()
def mn(a, b): return Ite(b < a, b, a)
def mx(a, b): return Ite(b > a, b, a)
class Tab:
    """a table: symbol written, move, next state (negative: halts), undecided"""
    def __init__(s, w, d, n, u): s.w, s.d, s.n, s.u = w, d, n, u
    @staticmethod
    def fresh(E, nm="t"):
        f = [E.func(nm + x, I, I, I) for x in "wdn"] + [E.func(nm + "u", I, I, B)]; return Tab(*[(lambda g: (lambda q, s: g(q, s)))(g) for g in f])
    def put(s, c, w, d, n, u):
        """c(q, s): where the new cell values go"""
        return Tab(lambda a, b: Ite(c(a, b), w, s.w(a, b)), lambda a, b: Ite(c(a, b), d, s.d(a, b)), lambda a, b: Ite(c(a, b), n, s.n(a, b)), lambda a, b: z3.If(c(a, b), zb(u), s.u(a, b)))
    def same(s, o, q, x): return And(s.w(q, x) == o.w(q, x), s.d(q, x) == o.d(q, x), s.n(q, x) == o.n(q, x), s.u(q, x) == o.u(q, x))
    def sub(s, f): return Tab(*[(lambda g: (lambda q, x: g(*f(q, x))))(g) for g in (s.w, s.d, s.n, s.u)])
def trans(E, t, q, s): return E.new(M, "LookupResult", symbol=t.w(q, s), move=t.d(q, s), state=t.n(q, s), undecided=t.u(q, s))
def vals(E, v):
    if not isinstance(v, Obj) or any(f not in v.fields for f in ("symbol", "move", "state", "undecided")): raise Unsupported("transition representation changed")
    F = v.fields; return zi(F["symbol"]), zi(F["move"]), zi(F["state"]), zb(E.truth(F["undecided"]))
# ---- vector<vector<LookupResult>> --------------------------------------------
def mkvv(E, tab, n, ln): return Obj(E, "VV", {"tab": tab, "n": n, "len": ln})
def rng(E, i, n, what="element"): E.prove("%s of a vector in range" % what, And(0 <= zi(i), zi(i) < zi(n)), "safety")
def vv_attr(E, o, name):
    F = o.fields
    if name == "at_":
        def at(E, q): rng(E, q, F["n"]); return Obj(E, "VRow", {"vv": o, "q": zi(q)})
        return at
    if name == "size_": return lambda E: F["n"]
    if name == "empty_": return lambda E: zi(F["n"]) == 0
    if name == "_copy": return lambda E: mkvv(E, F["tab"], F["n"], F["len"])
    if name == "resize_":
        def f(E, k):
            E.prove("new size not negative", zi(k) >= 0, "safety"); n, ln, k = zi(F["n"]), F["len"], zi(k); E.setfield(o, "len", lambda q: z3.If(q < n, ln(q), 0)); E.setfield(o, "n", k)
        return f
    if name == "emplace_back_":
        def f(E, k, v):
            E.prove("size of a new row not negative", zi(k) >= 0, "safety"); n, ln, k = zi(F["n"]), F["len"], zi(k); E.setfield(o, "tab", F["tab"].put(lambda q, s: q == n, *vals(E, v))); E.setfield(o, "len", lambda q: z3.If(q == n, k, ln(q))); E.setfield(o, "n", n + 1)
        return f
    if name == "push_back_":
        def f(E, row):
            if not isinstance(row, Obj) or row.cls != "RV": raise Unsupported("push_back")
            n, ln, t, rt, k = zi(F["n"]), F["len"], F["tab"], row.fields["tab"], zi(row.fields["n"]); nt = rt.sub(lambda q, s: (z3.IntVal(0), s))
            E.setfield(o, "tab", Tab(*[(lambda g, h: (lambda q, s: z3.If(q == n, h(q, s), g(q, s))))(g, h) for g, h in ((t.w, nt.w), (t.d, nt.d), (t.n, nt.n), (t.u, nt.u))])); E.setfield(o, "len", lambda q: z3.If(q == n, k, ln(q))); E.setfield(o, "n", n + 1)
        return f
    raise Unsupported("vector." + name)
def vrow_attr(E, o, name):
    v, q = o.fields["vv"], o.fields["q"]; F = v.fields
    if name == "at_":
        def at(E, s): rng(E, s, F["len"](q)); return trans(E, F["tab"], q, zi(s))
        return at
    if name == "set_":
        def st(E, s, x): rng(E, s, F["len"](q)); s = zi(s); E.setfield(v, "tab", F["tab"].put(lambda a, b: And(a == q, b == s), *vals(E, x)))
        return st
    if name == "size_": return lambda E: F["len"](q)
    if name == "resize_":
        def f(E, k, *x):
            E.prove("new size not negative", zi(k) >= 0, "safety"); ln, k, t = F["len"], zi(k), F["tab"]; fr = Tab.fresh(E, "new"); c = lambda a, b: And(a == q, b >= ln(q))
            E.setfield(v, "tab", t.put(c, *vals(E, x[0])) if x else Tab(*[(lambda g, h: (lambda a, b: z3.If(c(a, b), h(a, b), g(a, b))))(g, h) for g, h in ((t.w, fr.w), (t.d, fr.d), (t.n, fr.n), (t.u, fr.u))])); E.setfield(v, "len", lambda a: z3.If(a == q, k, ln(a)))
        return f
    raise Unsupported("vector." + name)
def rv_attr(E, o, name):
    F = o.fields
    if name == "push_back_":
        def f(E, x): n = zi(F["n"]); E.setfield(o, "tab", F["tab"].put(lambda a, b: b == n, *vals(E, x))); E.setfield(o, "n", n + 1)
        return f
    if name == "size_": return lambda E: F["n"]
    if name == "_copy": return lambda E: Obj(E, "RV", {"tab": F["tab"], "n": F["n"]})
    raise Unsupported("vector." + name)
def vv_havoc(E, o, field):
    if field == "tab": o.fields["tab"] = Tab.fresh(E); return True
    if field == "len": f = E.func("len", I, I); o.fields["len"] = lambda q: f(q); return True
    return False
def cvec(E, a, kw):
    if a[0] == "vector<vector<LookupResult>>" and len(a) == 1: return mkvv(E, Tab.fresh(E), z3.IntVal(0), lambda q: z3.IntVal(0))
    if a[0] == "vector<LookupResult>" and len(a) == 1: return Obj(E, "RV", {"tab": Tab.fresh(E), "n": z3.IntVal(0)})
    return CC.cvec(E, a, kw)
def citer(E, a, kw):
    o = a[0]
    if isinstance(o, Obj) and o.cls == "VV": return SymSeq(E, lambda q: Obj(E, "VRow", {"vv": o, "q": zi(q)}), zi(o.fields["n"]))
    if isinstance(o, Obj) and o.cls == "VRow": v, q = o.fields["vv"], o.fields["q"]; return SymSeq(E, lambda s: trans(E, v.fields["tab"], q, zi(s)), zi(v.fields["len"](q)))
    raise Unsupported("iteration")
cstr = CC.cstr
# ---- machines ----------------------------------------------------------------------
FIELDS = ("num_states_", "num_symbols_", "max_next_state_", "max_next_symbol_", "next_move_left_ok_", "num_halts_", "hereditary_name_", "transitions_")
def mk_tm(E, nm="t"):
    ns, nk = E.int("ns"), E.int("nk"); t = Tab.fresh(E, nm)
    o = E.new(M, "TuringMachine", num_states_=ns, num_symbols_=nk, max_next_state_=E.int("mns"), max_next_symbol_=E.int("mny"), next_move_left_ok_=E.bool("left"), num_halts_=E.int("nh"), hereditary_name_=cstr(E, ["x"], {}), transitions_=mkvv(E, t, ns, lambda q: nk)); return o
def tm_ok(o):
    if not isinstance(o, Obj) or any(f not in o.fields for f in FIELDS) or not isinstance(o.fields["transitions_"], Obj) or "tab" not in o.fields["transitions_"].fields: raise Unsupported("machine representation changed")
def tab(o): tm_ok(o); return o.fields["transitions_"].fields["tab"]
def size(o): tm_ok(o); return zi(o.fields["num_states_"]), zi(o.fields["num_symbols_"])
def shape(o):
    """the table has num_states rows of num_symbols cells"""
    ns, nk = size(o); v = o.fields["transitions_"].fields; return [("table size", And(zi(v["n"]) == ns, ns >= 1, nk >= 1)), ("row sizes", Forall([I], lambda q: Implies(And(0 <= q, q < ns), v["len"](q) == nk)))]
def inr(o, q, s): ns, nk = size(o); return And(0 <= q, q < ns, 0 <= s, s < nk)
def cells_ok(o, t=None):
    t = t or tab(o); ns, nk = size(o)
    return ("cells of a well-formed table", Forall([I, I], lambda q, s: Implies(inr(o, q, s), And(t.w(q, s) >= 0, t.w(q, s) < nk, t.n(q, s) >= -1, t.n(q, s) < ns, Or(t.d(q, s) == 1, t.d(q, s) == -1), Implies(t.u(q, s), And(t.n(q, s) == -1, t.w(q, s) == 1, t.d(q, s) == 1)))), patterns=lambda q, s: [t.n(q, s)] if plain(t.n) else None))
def plain(f): t = f(z3.Int("p1"), z3.Int("p2")); return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED
class Meta:
    """witnesses of the book-keeping: largest state / symbol used by a decided
    cell and where, some decided cell"""
    def __init__(s, us, uy, ws, wy, wd): s.us, s.uy, s.ws, s.wy, s.wd = us, uy, ws, wy, wd
    @staticmethod
    def fresh(E): i = lambda n: E.int(n); return Meta(i("us"), i("uy"), (i("a"), i("b")), (i("a"), i("b")), (i("a"), i("b")))
def book(E, o, m):
    t = tab(o); ns, nk = size(o); F = o.fields; left = zb(E.truth(F["next_move_left_ok_"]))
    return [("no decided cell uses a higher state", Forall([I, I], lambda q, s: Implies(And(inr(o, q, s), Not(t.u(q, s))), And(t.n(q, s) <= m.us)), patterns=lambda q, s: [t.n(q, s)] if plain(t.n) else None)),
            ("no decided cell uses a higher symbol", Forall([I, I], lambda q, s: Implies(And(inr(o, q, s), Not(t.u(q, s))), And(t.w(q, s) <= m.uy)), patterns=lambda q, s: [t.w(q, s)] if plain(t.w) else None)),
            ("the highest state is used", Or(m.us == 0, And(m.us >= 0, inr(o, *m.ws), Not(t.u(*m.ws)), t.n(*m.ws) == m.us))), ("the highest symbol is used", Or(m.uy == 0, And(m.uy >= 0, inr(o, *m.wy), Not(t.u(*m.wy)), t.w(*m.wy) == m.uy))),
            ("next unused state", zi(F["max_next_state_"]) == mn(ns - 1, m.us + 1)), ("next unused symbol", zi(F["max_next_symbol_"]) == mn(nk - 1, m.uy + 1)),
            ("left moves only once a cell is decided", Implies(left, And(inr(o, *m.wd), Not(t.u(*m.wd))))), ("left moves once a cell is decided", Forall([I, I], lambda q, s: Implies(And(Not(left), inr(o, q, s)), t.u(q, s))))]
class Empty(Contract):
    """the machine without transitions"""
    module = M; qualname = "TuringMachine._ctor__int_int"; params = ["self", "num_states", "num_symbols"]
    def args(self, E): return NS(self=E.new(M, "TuringMachine"), num_states=E.int("ns"), num_symbols=E.int("nk"))
    def pre(self, E, a): E.ghost["a"] = a; return [("at least one state and symbol", And(zi(a.num_states) >= 1, zi(a.num_symbols) >= 1))]
    def modifies(self, E, a): return [(a.self, None)]
    def loops(self):
        def inv(E, env):
            a = E.ghost["a"]; v = a.self.fields["transitions_"].fields; t = v["tab"]; i = zi(env.i); nk = zi(a.num_symbols)
            return [("rows so far", And(zi(v["n"]) == i, 0 <= i, i <= zi(a.num_states))), ("rows are full", Forall([I], lambda q: Implies(And(0 <= q, q < i), v["len"](q) == nk))), ("cells are undecided", Forall([I, I], lambda q, s: Implies(And(0 <= q, q < i, 0 <= s, s < nk), And(t.u(q, s), t.n(q, s) == -1, t.w(q, s) == 1, t.d(q, s) == 1))))]
        return [Loop("rows", inv, frame=lambda E, fr: [(E.ghost["a"].self.fields["transitions_"], x) for x in ("tab", "n", "len")])]
    def post(self, E, old, a, r):
        o = a.self; t = tab(o); z = (z3.IntVal(0), z3.IntVal(0))
        return [("constructed object", r is o), ("sizes", And(zi(o.fields["num_states_"]) == zi(a.num_states), zi(o.fields["num_symbols_"]) == zi(a.num_symbols)))] + shape(o) + [("every cell is undecided", Forall([I, I], lambda q, s: Implies(inr(o, q, s), And(t.u(q, s), t.n(q, s) == -1, t.w(q, s) == 1, t.d(q, s) == 1)))), ("every cell counts as a halt", zi(o.fields["num_halts_"]) == zi(a.num_states) * zi(a.num_symbols)), ("no left move yet", Not(zb(E.truth(o.fields["next_move_left_ok_"]))))] + book(E, o, Meta(z3.IntVal(0), z3.IntVal(0), z, z, z))
class FromTable(Contract):
    """the book-keeping is computed from the table"""
    module = M; qualname = "TuringMachine._ctor__vector_string"; params = ["self", "transitions", "base_name"]
    def args(self, E):
        ns, nk = E.int("ns"), E.int("nk"); t = Tab.fresh(E); E.ghost.update(t=t, ns=ns, nk=nk); E.assume([ns >= 1, nk >= 1])
        for n in ("PS", "PY", "PH", "PD"): E.ghost[n] = E.func(n, I, I, I)
        for n in ("WS", "WY", "WD"): E.ghost[n] = (E.func(n + "q", I, I, I), E.func(n + "s", I, I, I))
        return NS(self=E.new(M, "TuringMachine"), transitions=mkvv(E, t, ns, lambda q: nk), base_name=cstr(E, ["b"], {}))
    def pre(self, E, a):
        g = E.ghost; t, ns, nk = g["t"], g["ns"], g["nk"]
        return [("cells of a well-formed table", Forall([I, I], lambda q, s: Implies(And(0 <= q, q < ns, 0 <= s, s < nk), And(t.w(q, s) >= 0, t.w(q, s) < nk, t.n(q, s) >= -1, t.n(q, s) < ns, Implies(t.u(q, s), t.n(q, s) == -1))), patterns=lambda q, s: [t.n(q, s)]))]
    def modifies(self, E, a): return [(a.self, None)]
    def unf(self, E, q, s):
        """prefix maxima/counts over the cells in row order (definition)"""
        g = E.ghost; t, nk = g["t"], g["nk"]; d = Not(t.u(q, s)); PS, PY, PH, PD = g["PS"], g["PY"], g["PH"], g["PD"]
        out = [PS(0, 0) == 0, PY(0, 0) == 0, PH(0, 0) == 0, PD(0, 0) == 0]
        out += [P(q, s + 1) == Ite(And(d, v > P(q, s)), v, P(q, s)) for P, v in ((PS, t.n(q, s)), (PY, t.w(q, s)))]
        out += [PH(q, s + 1) == PH(q, s) + Ite(t.n(q, s) < 0, 1, 0), PD(q, s + 1) == Ite(d, 1, PD(q, s))]
        out += [P(q + 1, 0) == P(q, nk) for P in (PS, PY, PH, PD)]; return out
    def names(self, E, env, q, s):
        g = E.ghost; out = [("highest state so far", zi(env.max_state) == g["PS"](q, s)), ("highest symbol so far", zi(env.max_symbol) == g["PY"](q, s)), ("halts so far", zi(env.num_halts) == g["PH"](q, s))]
        d = [v for n, v in env.fr.locals.items() if (isinstance(v, bool) or is_zbool(v))]
        for v in d: out.append(("decided cell seen", zb(v) == (g["PD"](q, s) == 1)))
        return out
    def loops(self):
        def pre1(E, env): E.assume(self.unf(E, z3.IntVal(0), z3.IntVal(0)))
        def inv1(E, env): return self.names(E, env, zi(env.extra["k"]), 0)
        def head1(E, env): q = zi(env.extra["k"]); E.ghost["q"] = q; E.assume(self.unf(E, q, z3.IntVal(0)))
        def inv2(E, env): return self.names(E, env, E.ghost["q"], zi(env.extra["k"]))
        def head2(E, env): E.assume(self.unf(E, E.ghost["q"], zi(env.extra["k"])))
        return [Loop("rows", inv1, pre=pre1, head=head1), Loop("cells", inv2, head=head2)]
    def post(self, E, old, a, r):
        o = a.self; g = E.ghost; ns, nk = g["ns"], g["nk"]; F = o.fields; tm_ok(o); z = z3.IntVal(0); t = tab(o)
        return [("constructed object", r is o), ("sizes", And(zi(F["num_states_"]) == ns, zi(F["num_symbols_"]) == nk))] + shape(o) + [("own table", F["transitions_"] is not a.transitions), ("same cells", Forall([I, I], lambda q, s: t.same(g["t"], q, s))),
                ("next unused state", zi(F["max_next_state_"]) == mn(ns - 1, g["PS"](ns, 0) + 1)), ("next unused symbol", zi(F["max_next_symbol_"]) == mn(nk - 1, g["PY"](ns, 0) + 1)), ("number of halts", zi(F["num_halts_"]) == g["PH"](ns, 0)), ("left moves exactly once a cell is decided", zb(E.truth(F["next_move_left_ok_"])) == (g["PD"](ns, 0) == 1))]
    def apply_call(self, E, f, argv):
        o, v, nm = argv
        if not isinstance(v, Obj) or v.cls != "VV": raise Unsupported("table")
        t, n, ln = v.fields["tab"], zi(v.fields["n"]), v.fields["len"]; nk = ln(z3.IntVal(0)); E.prove("call TuringMachine(table): at least one state and symbol", And(n >= 1, nk >= 1)); E.prove("call TuringMachine(table): rows of one size", Forall([I], lambda q: Implies(And(0 <= q, q < n), ln(q) == nk)))
        E.prove("call TuringMachine(table): cells of a well-formed table", Forall([I, I], lambda q, s: Implies(And(0 <= q, q < n, 0 <= s, s < nk), And(t.w(q, s) >= 0, t.w(q, s) < nk, t.n(q, s) >= -1, t.n(q, s) < n, Implies(t.u(q, s), t.n(q, s) == -1)))))
        o.fields["__made__"] = Obj(E, "VV", dict(v.fields)); return o
class Prefix(Lemma):
    """what the prefix maxima of FromTable mean"""
    name = "prefix maxima over a table are attained upper bounds"
    def obligations(self, E):
        n = E.int("n"); v = E.func("v", I, I); d = E.func("decided", I, B); P = E.func("P", I, I); W = E.func("W", I, I); D = E.func("D", I, I); i = E.int("i"); E.assume([n >= 0, P(0) == 0, D(0) == 0, i >= 0])
        u = lambda k: And(P(k + 1) == Ite(And(d(k), v(k) > P(k)), v(k), P(k)), W(k + 1) == Ite(And(d(k), v(k) > P(k)), k, W(k)), D(k + 1) == Ite(d(k), 1, D(k)), Implies(i == k, And(v(i) == v(k), d(i) == d(k))))
        E.induct("upper bound", n, lambda k: Implies(And(i < k, d(i)), v(i) <= P(k)), unfold=u)
        E.induct("attained", n, lambda k: And(P(k) >= 0, Or(P(k) == 0, And(0 <= W(k), W(k) < k, d(W(k)), v(W(k)) == P(k)))), unfold=u)
        E.induct("decided cell seen", n, lambda k: And(Implies(And(i < k, d(i)), D(k) == 1), Or(D(k) == 0, D(k) == 1)), unfold=u)
        WD = E.func("WD", I, I); E.induct("seen means some cell is decided", n, lambda k: Implies(D(k) == 1, And(0 <= WD(k), WD(k) < k, d(WD(k)))), unfold=lambda k: And(D(k + 1) == Ite(d(k), 1, D(k)), WD(k + 1) == Ite(d(k), k, WD(k))))
class Child(Contract):
    """the parent with one undefined cell replaced; book-keeping stays right"""
    module = M; qualname = "TuringMachine._ctor__TuringMachine_int_int_LookupResult_int"; params = ["self", "old_tm", "last_state", "last_symbol", "next_trans", "hereditary_sub_order"]
    def args(self, E):
        o = mk_tm(E); E.ghost["m"] = Meta.fresh(E); nt = E.new(M, "LookupResult", symbol=E.int("w"), move=E.int("d"), state=E.int("n"), undecided=False)
        return NS(self=E.new(M, "TuringMachine"), old_tm=o, last_state=E.int("q"), last_symbol=E.int("s"), next_trans=nt, hereditary_sub_order=E.int("ord"))
    def pre(self, E, a):
        E.ghost["a"] = a; o = a.old_tm; q, s = zi(a.last_state), zi(a.last_symbol); w, d, n, u = vals(E, a.next_trans); ns, nk = size(o)
        return shape(o) + [cells_ok(o)] + book(E, o, E.ghost["m"]) + [("an undefined cell", And(inr(o, q, s), tab(o).u(q, s))), ("a decided running transition", And(Not(u), 0 <= n, n < ns, 0 <= w, w < nk, Or(d == 1, d == -1)))]
    def old(self, E, a): return NS(t=tab(a.old_tm), v=a.old_tm.fields["transitions_"], nh=zi(a.old_tm.fields["num_halts_"]))
    def modifies(self, E, a): return [(a.self, None)]
    def loops(self):
        def parts(E): a = E.ghost["a"]; v = a.self.fields["transitions_"].fields; return a, v, v["tab"], tab(a.old_tm), *size(a.old_tm)
        def inv1(E, env):
            a, v, t, t0, ns, nk = parts(E); i = zi(env.state); return [("rows so far", And(zi(v["n"]) == ns, 0 <= i, i <= ns)), ("rows are full", Forall([I], lambda q: Implies(And(0 <= q, q < ns), v["len"](q) == Ite(q < i, nk, 0)))), ("rows are copied", Forall([I, I], lambda q, s: Implies(And(0 <= q, q < i, 0 <= s, s < nk), t.same(t0, q, s))))]
        def inv2(E, env):
            a, v, t, t0, ns, nk = parts(E); i, j = zi(env.state), zi(env.symbol); return [("rows so far", And(zi(v["n"]) == ns, 0 <= i, i < ns, 0 <= j, j <= nk)), ("rows are full", Forall([I], lambda q: Implies(And(0 <= q, q < ns), v["len"](q) == Ite(q <= i, nk, 0)))), ("cells are copied", Forall([I, I], lambda q, s: Implies(And(0 <= q, 0 <= s, Or(And(q < i, s < nk), And(q == i, s < j))), t.same(t0, q, s))))]
        fr = lambda E, f: [(E.ghost["a"].self.fields["transitions_"], x) for x in ("tab", "n", "len")]
        return [Loop("rows", inv1, frame=fr), Loop("cells", inv2, frame=fr)]
    def post(self, E, old, a, r):
        o = a.self; tm_ok(o); t = tab(o); q, s = zi(a.last_state), zi(a.last_symbol); w, d, n, u = vals(E, a.next_trans); m = E.ghost["m"]; F = o.fields; ns, nk = size(a.old_tm)
        nm = Meta(mx(m.us, n), mx(m.uy, w), (Ite(n > m.us, q, m.ws[0]), Ite(n > m.us, s, m.ws[1])), (Ite(w > m.uy, q, m.wy[0]), Ite(w > m.uy, s, m.wy[1])), (q, s))
        return [("constructed object", r is o), ("sizes", And(zi(F["num_states_"]) == ns, zi(F["num_symbols_"]) == nk))] + shape(o) + [("own table", F["transitions_"] is not old.v), ("the new transition", And(t.w(q, s) == w, t.d(q, s) == d, t.n(q, s) == n, Not(t.u(q, s)))), ("the rest is the parent's", Forall([I, I], lambda x, y: Implies(And(inr(o, x, y), Or(x != q, y != s)), t.same(old.t, x, y)))), ("one halt less", zi(F["num_halts_"]) == old.nh - 1)] + book(E, o, nm)
    def apply_call(self, E, f, argv):
        a = NS(**dict(zip(self.params, argv))); w, d, n, u = vals(E, a.next_trans); o = a.old_tm; q, s = zi(a.last_state), zi(a.last_symbol); ns, nk = size(o)
        E.prove("call TuringMachine(parent, ...): a decided running transition of the machine's size", And(Not(u), 0 <= n, n < ns, 0 <= w, w < nk, Or(d == 1, d == -1))); E.prove("call TuringMachine(parent, ...): requires an undefined cell", And(inr(o, q, s), tab(o).u(q, s)))
        a.self.fields["__child__"] = (o, q, s, n, w, d); return a.self
# ---- enumeration ---------------------------------------------------------------------
def st_attr(E, o, name):
    F = o.fields
    if name == "push_":
        def f(E, x):
            if "cnt" in F:
                if not isinstance(x, Obj) or "__child__" not in x.fields: raise Unsupported("pushed %r" % (x,))
                p, q, s, n, w, d = x.fields["__child__"]; a = E.ghost["a"]; E.prove("pushed machine is a child of this machine at the undefined cell", And(p is a.tm, q == zi(a.result.fields["last_state"]), s == zi(a.result.fields["last_symbol"])) if p is a.tm else False)
                for la in E.loop_active: E.prove("child is made anew for each transition", x.oid > la["oid_limit"])
                c = F["cnt"]; E.setfield(o, "cnt", lambda n2, w2, d2: z3.If(And(n2 == n, w2 == w, d2 == d), c(n2, w2, d2) + 1, c(n2, w2, d2)))
            else: E.setfield(o, "pushed", F["pushed"] + 1)
        return f
    if name == "empty_": return lambda E: F["pushed"] - F["popped"] == 0
    if name == "size_": return lambda E: F["pushed"] - F["popped"]
    if name == "top_":
        def f(E): E.prove("top of a non-empty stack", F["pushed"] > F["popped"], "safety"); j = mk_tm(E); j.fields["__job__"] = F["popped"]; return j
        return f
    if name == "pop_":
        def f(E): E.prove("pop of a non-empty stack", F["pushed"] > F["popped"], "safety"); E.setfield(o, "popped", F["popped"] + 1)
        return f
    raise Unsupported("stack." + name)
def st_havoc(E, o, field):
    if field == "cnt": f = E.func("cnt", I, I, I, I); o.fields["cnt"] = lambda a, b, c: f(a, b, c); return True
    return False
class Expand(Contract):
    """pushes every child tree normal form allows, each exactly once"""
    module = M; qualname = "BaseEnumerator.expand_tm"; params = ["self", "tm", "result", "todos"]
    def args(self, E):
        tm = mk_tm(E); E.ghost["m"] = Meta.fresh(E); c0 = E.func("before", I, I, I, I); E.ghost["c0"] = c0
        return NS(self=E.new(M, "BaseEnumerator", allow_no_halt_=E.bool("allow")), tm=tm, result=E.new(M, "EnumExpandParams", reached_undecided=True, last_state=E.int("q"), last_symbol=E.int("s")), todos=Obj(E, "CStack", {"cnt": lambda a, b, c: c0(a, b, c)}))
    def pre(self, E, a):
        E.ghost["a"] = a; o = a.tm; q, s = zi(a.result.fields["last_state"]), zi(a.result.fields["last_symbol"]); return shape(o) + [cells_ok(o)] + book(E, o, E.ghost["m"]) + [("an undefined cell", And(inr(o, q, s), tab(o).u(q, s)))]
    def modifies(self, E, a): return [(a.todos, "cnt")]
    def moves(self, E, d): return Or(d == 1, And(d == -1, zb(E.truth(E.ghost["a"].tm.fields["next_move_left_ok_"]))))
    def allowed(self, E, n, w, d):
        a = E.ghost["a"]; F = a.tm.fields; m = E.ghost["m"]; ns, nk = size(a.tm)
        return And(Or(zb(E.truth(a.self.fields["allow_no_halt_"])), zi(F["num_halts_"]) > 1), 0 <= n, n <= m.us + 1, n < ns, 0 <= w, w <= m.uy + 1, w < nk, self.moves(E, d))
    def loops(self):
        def inv(E, env, done):
            c, c0 = E.ghost["a"].todos.fields["cnt"], E.ghost["c0"]; return [("each child so far exactly once", Forall([I, I, I], lambda n, w, d: c(n, w, d) == c0(n, w, d) + Ite(And(self.allowed(E, n, w, d), done(n, w)), 1, 0)))]
        def inv1(E, env): i = zi(env.next_state); return inv(E, env, lambda n, w: n < i) + [("bounds", i >= 0)]
        def inv2(E, env): i, j = zi(env.next_state), zi(env.next_symbol); return inv(E, env, lambda n, w: Or(n < i, And(n == i, w < j))) + [("bounds", And(i >= 0, j >= 0, i <= zi(E.ghost["a"].tm.fields["max_next_state_"])))]
        fr = lambda E, f: [(E.ghost["a"].todos, "cnt")]
        return [Loop("states", inv1, frame=fr), Loop("symbols", inv2, frame=fr, bind_unbound=lambda E, f, n, k: E.int(n))]
    def post(self, E, old, a, r):
        c, c0 = a.todos.fields["cnt"], E.ghost["c0"]; return [("exactly the children of tree normal form, each once", Forall([I, I, I], lambda n, w, d: c(n, w, d) == c0(n, w, d) + Ite(self.allowed(E, n, w, d), 1, 0)))]
    def apply_call(self, E, f, argv):
        s, tm, res, st = argv; E.prove("expanded machine is the one last filtered, with its result", "__job__" in tm.fields and E.ghost.get("last") is not None and E.ghost["last"][0] is tm and E.ghost["last"][1] is res); E.prove("expanded only if an undefined cell was reached", zb(E.truth(res.fields["reached_undecided"]))); k = E.int("kids"); E.assume(k >= 0)
        E.setfield(st, "pushed", st.fields["pushed"] + k); E.ghost["expanded"] = True
class Filter(Contract):
    module = M; qualname = "BaseEnumerator.filter_tm"; params = ["self", "tm"]; assumed = True; why = "pure virtual; the overriders are under contract (cppfilter)"
    def apply_call(self, E, f, argv): return None
class Enumerate(Contract):
    """every machine put on the stack is filtered exactly once, and expanded
    exactly if it reached an undefined cell; ends only when the stack is empty"""
    module = M; qualname = "BaseEnumerator.enumerate"; params = ["self", "init_tm"]
    def args(self, E):
        o = E.new(M, "BaseEnumerator", allow_no_halt_=E.bool("allow")); ev = Obj(E, "Ev", {"f": z3.IntVal(0)}); E.ghost["ev"] = ev; return NS(self=o, init_tm=mk_tm(E))
    def modifies(self, E, a): return [(E.ghost["ev"], None)]
    def loops(self):
        def st(E, env): return [v for v in env.fr.locals.values() if isinstance(v, Obj) and v.cls == "CStack"][0]
        def inv(E, env): F = st(E, env).fields; E.ghost["st"] = st(E, env); return [("every machine taken was filtered once", E.ghost["ev"].fields["f"] == F["popped"]), ("stack size", F["pushed"] >= F["popped"]), ("the first machine was put on the stack", F["pushed"] >= 1)]
        def after(E, env, old):
            l = E.ghost.get("last"); E.prove("a machine that reached an undefined cell is expanded", Or(Not(zb(E.truth(l[1].fields["reached_undecided"]))), E.ghost.get("expanded", False)) if l else False)
        def head(E, env): E.ghost["last"] = None; E.ghost["expanded"] = False
        return [Loop("stack", inv, head=head, after=after, frame=lambda E, fr: [(E.ghost["ev"], "f")] + [(v, x) for v in fr.locals.values() if isinstance(v, Obj) and v.cls == "CStack" for x in ("pushed", "popped")], havoc_local=lambda E, fr, n: fr.locals[n] if isinstance(fr.locals[n], Obj) else MISSING, bind_unbound=lambda E, fr, n, k: Opaque(n))]
    def post(self, E, old, a, r): F = E.ghost["st"].fields; return [("the stack is empty", F["pushed"] == F["popped"]), ("every machine was filtered exactly once", E.ghost["ev"].fields["f"] == F["pushed"])]
def filter_hook(E, o, name):
    if name == "filter_tm":
        def f(E, tm):
            E.prove("filtered machine is the one just taken", isinstance(tm, Obj) and "__job__" in tm.fields and E.ghost.get("last") is None); E.setfield(E.ghost["ev"], "f", E.ghost["ev"].fields["f"] + 1)
            r = E.new(M, "EnumExpandParams", reached_undecided=E.bool("reached"), last_state=E.int("q"), last_symbol=E.int("s")); E.ghost["last"] = (tm, r); return r
        return f
    return MISSING
CONTRACTS = [Empty(), FromTable(), Child(), Expand(), Enumerate()]
LEMMAS = ["Prefix"]
EXTS = dict(CC.EXTS); EXTS.update({("builtin", "cpp_vec"): cvec, ("builtin", "cpp_iter"): citer, ("VV", "attr"): vv_attr, ("VV", "havoc"): vv_havoc, ("VRow", "attr"): vrow_attr, ("RV", "attr"): rv_attr, ("RV", "havoc"): vv_havoc,
             ("builtin", "cpp_stack"): lambda E, a, kw: Obj(E, "CStack", {"pushed": z3.IntVal(0), "popped": z3.IntVal(0)}), ("CStack", "attr"): st_attr, ("CStack", "havoc"): st_havoc, ("BaseEnumerator", "attr"): filter_hook})
