"""Contracts of Reverse_Engineer_Filter.py (C08).

A list of lists of transitions filled by appends is represented by its row
lengths and entries, with a ghost index: where the entry of a table cell went."""
import ast, z3
from pyvc.engine import *
from pyvc.contract import *
from . import ttable as TT, tmspec as TS
M = "Reverse_Engineer_Filter"; TMM = TT.TMM; I = z3.IntSort(); B = z3.BoolSort()
RUN = TT.RUNNING
# ---- lists of lists ------------------------------------------------------------------
def fresh(E, o, f):
    ar = {"len": 1, "q": 2, "s": 2, "idx": 2}[f]; g = E.func(f, *([I] * (ar + 1))); o.fields[f] = (lambda a: g(a)) if ar == 1 else (lambda a, b: g(a, b)); return True
def lol(E, rows, empty=True):
    o = Obj(E, "LoL", {"rows": rows})
    for f in ("len", "q", "s", "idx"): fresh(E, o, f)
    if empty: o.fields["len"] = lambda i: z3.IntVal(0)
    return o
def lol_get(E, o, k): return Obj(E, "LRow", {"lol": o, "i": TT.idx(E, k, o.fields["rows"])})
def cell_of(v):
    if isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], Obj) and "cell" in v[1].meta: return v[1].meta["cell"][1:]
    raise Unsupported("entry %r" % (v,))
def push(E, o, i, q, s):
    F = o.fields; L, Q, S, X = F["len"], F["q"], F["s"], F["idx"]; n = L(i)
    for f in ("len", "q", "s", "idx"): E.note_write("field", o, f)
    F["len"] = lambda a: Ite(a == i, n + 1, L(a)); at = lambda a, b: And(a == i, b == n)
    F["q"] = lambda a, b: Ite(at(a, b), q, Q(a, b)); F["s"] = lambda a, b: Ite(at(a, b), s, S(a, b)); F["idx"] = lambda a, b: Ite(And(a == q, b == s), n, X(a, b))
def lrow_attr(E, o, name):
    if name != "append": return MISSING
    def f(E, v):
        (qs, t) = v if isinstance(v, tuple) and len(v) == 2 else (None, None); q, s = cell_of(v)
        push(E, o.fields["lol"], zi(o.fields["i"]), zi(q), zi(s))
    return f
def entry(E, q, s):
    t = E.ghost["tab"]; r = E.new(TMM, "Transition", condition="Running", condition_details=Opaque("d"), symbol_out=t.w(q, s), state_out=t.n(q, s), dir_out=t.d(q, s), num_base_steps=1, states_last_seen=Opaque("l")); return ((q, s), r)
def lrow_iter(E, o): F = o.fields["lol"].fields; i = zi(o.fields["i"]); return F["len"](i), lambda k: entry(E, F["q"](i, zi(k)), F["s"](i, zi(k)))
def lrow_get(E, o, k): F = o.fields["lol"].fields; i = zi(o.fields["i"]); k = TT.idx(E, k, F["len"](i)); return entry(E, F["q"](i, k), F["s"](i, k))
def hl_attr(E, o, name):
    if name != "append": return MISSING
    def f(E, v):
        if not (isinstance(v, tuple) and len(v) == 2): raise Unsupported("entry")
        push(E, o, z3.IntVal(0), zi(v[0]), zi(v[1]))
    return f
def hl_iter(E, o): F = o.fields; Z = z3.IntVal(0); return F["len"](Z), lambda k: (F["q"](Z, zi(k)), F["s"](Z, zi(k)))
def rng_len(E, it):
    if isinstance(it, SymSeq): return zi(it.length)
    if not E.branch(And(zi(it.lo) == 0, zi(it.step) == 1)): raise Unsupported("range")
    return zi(it.hi)
def compelt(E, it, e):
    if isinstance(e.elt, ast.List) and not e.elt.elts: return lol(E, rng_len(E, it))
    return MISSING
def covered(o, i, q, s):
    """the entry of table cell (q, s) is in row i"""
    F = o.fields; x = F["idx"](q, s); return And(0 <= x, x < F["len"](i), F["q"](i, x) == q, F["s"](i, x) == s)
def coverage(t, S, W, H, inr):
    """every cell in range: a running one is listed under its target and under its symbol, another one among the halts"""
    def f(q, s): return Implies(inr(q, s), Ite(t.c(q, s) == RUN, And(covered(S, t.n(q, s), q, s), covered(W, t.w(q, s), q, s)), covered(H, z3.IntVal(0), q, s)))
    return Forall([I, I], f, patterns=lambda q, s: [t.c(q, s)])
EX = dict(TT.EXTS); EX.update({("compelt", "*"): compelt, ("LoL", "getitem"): lol_get, ("LoL", "havoc"): fresh, ("LRow", "attr"): lrow_attr, ("LRow", "iter"): lrow_iter, ("LRow", "getitem"): lrow_get, ("LRow", "len"): lambda E, o: o.fields["lol"].fields["len"](zi(o.fields["i"])),
      ("HL", "attr"): hl_attr, ("HL", "iter"): hl_iter, ("HL", "havoc"): fresh, ("HL", "len"): lambda E, o: o.fields["len"](z3.IntVal(0)), ("LoL", "len"): lambda E, o: o.fields["rows"]})
# ---- get_stats ------------------------------------------------------------------------
class GetStats(Contract):
    """every non-running cell is listed as a halt, every running one under its target state and its written symbol"""
    module = M; qualname = "get_stats"; params = ["tm"]
    def args(self, E): tm = TT.mk_tm(E); E.ghost.update(tm=tm, tab=TT.tab_of(tm), ns=tm.fields["num_states"], nk=tm.fields["num_symbols"]); return NS(tm=tm)
    def objs(self, E, env):
        L = env.fr.locals; s, w, h = L.get("to_state"), L.get("to_symbol"), L.get("halts")
        if not all(isinstance(x, Obj) for x in (s, w, h)): raise Unsupported("locals of get_stats")
        return s, w, h
    def loops(self):
        def pre(E, env):
            for n, v in list(env.fr.locals.items()):
                if isinstance(v, PyList) and not v.items: env.fr.locals[n] = hl_new(E)
        def inv(E, env):
            S, W, H = self.objs(E, env); q0 = zi(env.extra["k"])
            return inv_at(E, S, W, H, q0, z3.IntVal(0))
        def inv_at(E, S, W, H, q0, s0):
            t = E.ghost["tab"]; nk = E.ghost["nk"]
            return [("lengths", Forall([I], lambda i: And(S.fields["len"](i) >= 0, W.fields["len"](i) >= 0, H.fields["len"](i) >= 0))),
                    ("all cells so far are listed", coverage(t, S, W, H, lambda q, s: And(0 <= q, 0 <= s, s < nk, Or(q < q0, And(q == q0, s < s0)))))]
        def head(E, env): E.ghost["q0"] = zi(env.extra["k"])
        def inv2(E, env):
            S, W, H = self.objs(E, env); return inv_at(E, S, W, H, E.ghost["q0"], zi(env.extra["k"]))
        def fr(E, f): return [(v, x) for v in f.locals.values() if isinstance(v, Obj) and v.cls in ("LoL", "HL") for x in ("len", "q", "s", "idx")]
        return [Loop("states", inv, pre=pre, head=head, frame=fr), Loop("symbols", inv2, frame=fr)]
    def post(self, E, old, a, r):
        if not (isinstance(r, tuple) and len(r) == 3 and all(isinstance(x, Obj) for x in r)): raise Unsupported("result")
        H, S, W = r; ns, nk = E.ghost["ns"], E.ghost["nk"]; t = E.ghost["tab"]
        return [("every cell is listed", coverage(t, S, W, H, lambda q, s: And(0 <= q, q < ns, 0 <= s, s < nk)))]
    def apply_call(self, E, f, argv):
        g = E.ghost; E.prove("call get_stats: of the same machine", argv[0] is g["tm"]); S, W, H = lol(E, g["ns"], False), lol(E, g["nk"], False), hl_new(E, False)
        E.assume(coverage(g["tab"], S, W, H, lambda q, s: And(0 <= q, q < g["ns"], 0 <= s, s < g["nk"]))); g.update(S=S, W=W, H=H)
        E.assume(Forall([I], lambda i: H.fields["len"](i) >= 0)); return (H, S, W)
def hl_new(E, empty=True):
    o = Obj(E, "HL", {})
    for f in ("len", "q", "s", "idx"): fresh(E, o, f)
    if empty: o.fields["len"] = lambda i: z3.IntVal(0)
    return o
# ---- the criterion ----------------------------------------------------------------------
def inr(E, q, s): return And(0 <= q, q < E.ghost["ns"], 0 <= s, s < E.ghost["nk"])
def no_into(E, h): t = E.ghost["tab"]; return Forall([I, I], lambda q, s: Implies(And(inr(E, q, s), t.c(q, s) == RUN), t.n(q, s) != h), patterns=lambda q, s: [t.c(q, s)])
def no_write(E, y): t = E.ghost["tab"]; return Forall([I, I], lambda q, s: Implies(And(inr(E, q, s), t.c(q, s) == RUN), t.w(q, s) != y), patterns=lambda q, s: [t.c(q, s)])
def one_dir(E, h, y, d): t = E.ghost["tab"]; return Forall([I, I], lambda q, s: Implies(And(inr(E, q, s), t.c(q, s) == RUN), And(Implies(t.n(q, s) == h, t.d(q, s) == d), Implies(t.w(q, s) == y, t.d(q, s) == d))), patterns=lambda q, s: [t.c(q, s)])
def crit(E, h, y):
    z = lambda f: f.as_z3(E)
    return Or(And(z(no_into(E, h)), Or(h != 0, y != 0)), And(y != 0, Or(z(no_write(E, y)), z(one_dir(E, h, y, 0)), z(one_dir(E, h, y, 1)))))
class Cannot(Contract):
    """true only for cells that meet the criterion"""
    module = M; qualname = "cannot_reach_halt"; params = ["halt_state", "halt_symbol", "to_state", "to_symbol"]
    def args(self, E):
        tm = TT.mk_tm(E); g = E.ghost; g.update(tm=tm, tab=TT.tab_of(tm), ns=tm.fields["num_states"], nk=tm.fields["num_symbols"]); S, W = lol(E, g["ns"], False), lol(E, g["nk"], False); h, y = E.int("h"), E.int("y"); g.update(h=h, y=y, S=S, W=W); t = g["tab"]
        E.assume(inr(E, h, y)); E.assume(Forall([I], lambda i: And(S.fields["len"](i) >= 0, W.fields["len"](i) >= 0), patterns=lambda i: [S.fields["len"](i)])); E.assume([S.fields["len"](h) >= 0, W.fields["len"](y) >= 0])
        E.assume(Forall([I, I], lambda q, s: Implies(And(inr(E, q, s), t.c(q, s) == RUN), And(covered(S, t.n(q, s), q, s), covered(W, t.w(q, s), q, s), Or(t.d(q, s) == 0, t.d(q, s) == 1))), patterns=lambda q, s: [t.c(q, s)]))
        return NS(halt_state=h, halt_symbol=y, to_state=S, to_symbol=W)
    def loops(self):
        def inv(which):
            def f(E, env):
                g = E.ghost; o = g[which]; i = g["h"] if which == "S" else g["y"]; k = zi(env.extra["k"]); t = g["tab"]; F = o.fields; d = zi(env.prehalt_dir)
                out = [("one direction so far", Forall([I], lambda j: Implies(And(0 <= j, j < k), t.d(F["q"](i, j), F["s"](i, j)) == d), patterns=lambda j: [F["q"](i, j)]))]
                return out
            return f
        hv = lambda E, fr, n: Opaque("loop variable") if isinstance(fr.locals[n], (tuple, Obj, Opaque)) else MISSING
        return [Loop("into the halting state", inv("S"), havoc_local=hv), Loop("writing the halting symbol", inv("W"), havoc_local=hv)]
    def post(self, E, old, a, r):
        if r is False: return []
        if r is not True: raise Unsupported("result")
        g = E.ghost; h, y = g["h"], g["y"]; t = g["tab"]; S = g["S"].fields
        d = t.d(S["q"](h, z3.IntVal(0)), S["s"](h, z3.IntVal(0)))
        if E.branch(zb(S["len"](h) == 0)): return [("nothing leads to the state" , Or(no_into(E, h).as_z3(E), And(y != 0, no_write(E, y).as_z3(E)))), ("not the start", Or(h != 0, y != 0))]
        if E.branch(zb(g["W"].fields["len"](y) == 0)): return [("the symbol is never written", And(y != 0, no_write(E, y).as_z3(E)))]
        return [("a written symbol", y != 0), ("all moves have the same direction", one_dir(E, h, y, d))]
    def apply_call(self, E, f, argv):
        g = E.ghost; h, y, S, W = argv; E.prove("call cannot_reach_halt: lists of this machine", S is g["S"] and W is g["W"]); r = E.bool("unreachable"); E.assume(Implies(r, g["CR"](zi(h), zi(y)))); return r
class Infinite(Contract):
    """true only if every non-running cell meets the criterion"""
    module = M; qualname = "is_infinite"; params = ["tm"]
    def args(self, E):
        tm = TT.mk_tm(E); E.ghost.update(tm=tm, tab=TT.tab_of(tm), ns=tm.fields["num_states"], nk=tm.fields["num_symbols"], CR=E.func("criterion", I, I, B)); return NS(tm=tm)
    def loops(self):
        def inv(E, env):
            H = E.ghost["H"].fields; k = zi(env.extra["k"]); Z = z3.IntVal(0); return [("all halts so far meet the criterion", Forall([I], lambda j: Implies(And(0 <= j, j < k), E.ghost["CR"](H["q"](Z, j), H["s"](Z, j))), patterns=lambda j: [H["q"](Z, j)]))]
        return [Loop("halts", inv)]
    def post(self, E, old, a, r):
        if r is False: return []
        t = E.ghost["tab"]; g = E.ghost; return [("only if every halting or undefined cell meets the criterion", Implies(zb(E.truth(r)), Forall([I, I], lambda q, s: Implies(And(inr(E, q, s), t.c(q, s) != RUN), g["CR"](q, s)), patterns=lambda q, s: [t.c(q, s)]).as_z3(E)))]
class Unreachable(Lemma):
    """a cell meeting the criterion is never reached from the blank tape"""
    name = "the criterion excludes the cell in every run from the blank tape"
    def obligations(self, E):
        from .tmspec import St, Po, Ta, NX, SO, DO
        h, y, k = E.int("h"), E.int("y"), E.int("k"); E.assume([k >= 0, St(0) == 0, h >= 0]); E.assume(Forall([I], lambda x: Ta(0, x) == 0)); E.assume(Ta(0, Po(0)) == 0)
        TS.unfold(E, k); E.assume([St(k) != -1, NX(Ta(k, Po(k)), St(k)) == St(k + 1)]); rd = lambda t: Ta(t, Po(t)); q, s = St(k), rd(k)
        # 1: no transition leads to h
        at = lambda t: And(St(t) == h, rd(t) == y)
        E.prove("no way in: not at the start", Implies(Or(h != 0, y != 0), Not(at(z3.IntVal(0)))))
        E.prove("no way in: not later", Implies(NX(s, q) != h, Not(at(k + 1))))
        # 2: y is never written
        x = E.int("x")
        E.prove("never written: not at the start", Implies(y != 0, Ta(0, x) != y))
        E.prove("never written: not later", Implies(And(y != 0, Ta(k, x) != y, SO(s, q) != y), Ta(k + 1, x) != y))
        # 3: entering h and writing y only in direction d: every y is behind the head, or under it just after a move against d
        for d in (0, 1):
            behind = lambda t, z: (z <= Po(t)) if d == 1 else (z >= Po(t))
            LM = E.func("last_move", I, I); E.assume([LM(k + 1) == DO(s, q)])
            J = lambda t, z: Implies(Ta(t, z) == y, And(behind(t, z), Implies(z == Po(t), And(t >= 1, LM(t) != d))))
            E.prove("direction %d: initially" % d, Implies(y != 0, J(z3.IntVal(0), x)))
            E.prove("direction %d: kept" % d, Implies(And(y != 0, J(k, x), J(k, Po(k)), Implies(SO(s, q) == y, DO(s, q) == d)), J(k + 1, x)))
            E.prove("direction %d: the cell is not reached" % d, Implies(And(y != 0, J(k + 1, Po(k + 1)), Implies(NX(s, q) == h, DO(s, q) == d)), Not(at(k + 1))))
for c in (GetStats, Cannot, Infinite): c.exts = EX
CONTRACTS = [GetStats(), Cannot(), Infinite()]
LEMMAS = ["Unreachable"]
