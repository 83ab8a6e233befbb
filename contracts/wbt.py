"""Contracts of Backtracking_Filter.get_ttable and backtrack (C09): the table handed to the search is the machine's, and only a successful search is recorded."""
from .wcommon import *
from .wcommon import EXTS as WX
M = "Backtracking_Filter"
W, D, N = [z3.Function("cell_" + x, I, I, I) for x in ("write", "dir", "next")]
def grow(E, n=None):
    f = [E.func("row_" + x, I, I) for x in "wdn"]; return Obj(E, "GRow", {"n": E.int("row_n") if n is None else z3.IntVal(n), "f": [(lambda g: lambda s: g(s))(g) for g in f]})
def gtab(E, n=None):
    f = [E.func("tab_" + x, I, I, I) for x in "wdn"]; L = E.func("tab_len", I, I); return Obj(E, "GTab", {"n": E.int("tab_n") if n is None else z3.IntVal(n), "f": [(lambda g: lambda q, s: g(q, s))(g) for g in f], "len": lambda q: L(q)})
def row_attr(E, o, name):
    if name != "append": return MISSING
    def f(E, c):
        if not (isinstance(c, tuple) and len(c) == 3): raise Unsupported("cell")
        n = o.fields["n"]; E.setfield(o, "f", [(lambda v, g: lambda s: Ite(s == n, zi(v), g(s)))(v, g) for v, g in zip(c, o.fields["f"])]); E.setfield(o, "n", n + 1)
    return f
def tab_attr(E, o, name):
    if name != "append": return MISSING
    def f(E, r):
        if not (isinstance(r, Obj) and r.cls == "GRow"): raise Unsupported("row")
        n = o.fields["n"]; L = o.fields["len"]; rn, rf = r.fields["n"], list(r.fields["f"]); E.setfield(o, "f", [(lambda v, g: lambda q, s: Ite(q == n, v(s), g(q, s)))(v, g) for v, g in zip(rf, o.fields["f"])]); E.setfield(o, "len", lambda q: Ite(q == n, rn, L(q))); E.setfield(o, "n", n + 1)
    return f
def havoc(mk):
    def h(E, o, f): o.fields[f] = mk(E).fields[f]; return True
    return h
class Table(Wrapper):
    module = M; qualname = "get_ttable"; params = ["tm"]
    exts = dict(WX); exts.update({("GRow", "attr"): row_attr, ("GTab", "attr"): tab_attr, ("GRow", "havoc"): havoc(grow), ("GTab", "havoc"): havoc(gtab)})
    def args(self, E):
        ns, nk = E.int("states"), E.int("symbols"); E.assume(And(ns >= 1, nk >= 1)); E.ghost.update(ns=ns, nk=nk)
        def attr(E, o, name):
            if name in ("num_states", "num_symbols"): return ns if name == "num_states" else nk
            if name == "get_trans_object":
                def f(E, symbol, state, dir=None): s, q = zi(symbol), zi(state); E.prove("a cell of the table", And(0 <= q, q < ns, 0 <= s, s < nk)); return E.new("Macro.Turing_Machine", "Transition", symbol_out=W(q, s), dir_out=D(q, s), state_out=N(q, s), condition=Opaque("c"))
                return f
            return MISSING
        E.exts[("TMx", "attr")] = attr; return NS(tm=Obj(E, "TMx", {}))
    def loops(self):
        def conv(mk):
            def pre(E, env):
                for n, v in list(env.fr.locals.items()):
                    if isinstance(v, PyList) and not v.items: env.fr.locals[n] = mk(E, 0)
            return pre
        def find(env, c):
            x = [v for v in env.fr.locals.values() if isinstance(v, Obj) and v.cls == c]
            if len(x) != 1: raise Unsupported("table under construction")
            return x[0].fields
        def rows(E, T, k): g = E.ghost; return [("rows so far", And(zi(T["n"]) == k)), ("their cells are the machine's", Forall([I, I], lambda q, s: Implies(And(0 <= q, q < k, 0 <= s, s < g["nk"]), And(*[f(q, s) == h(q, s) for f, h in zip(T["f"], (W, D, N))])))), ("full rows", Forall([I], lambda q: Implies(And(0 <= q, q < k), T["len"](q) == g["nk"])))]
        def inv1(E, env): E.ghost["k1"] = zi(env.extra["k"]); return rows(E, find(env, "GTab"), zi(env.extra["k"]))
        def inv2(E, env):
            R = find(env, "GRow"); k = zi(env.extra["k"]); q = zi(env.state); T = find(env, "GTab")
            return [("cells so far", zi(R["n"]) == k), ("they are the machine's", Forall([I], lambda s: Implies(And(0 <= s, s < k), And(*[f(s) == h(q, s) for f, h in zip(R["f"], (W, D, N))]))))]
        keep = lambda E, fr, n: fr.locals[n] if isinstance(fr.locals[n], Obj) and fr.locals[n].cls == "GTab" else grow(E) if isinstance(fr.locals[n], Obj) and fr.locals[n].cls == "GRow" else Opaque("loop variable") if isinstance(fr.locals[n], (Obj, PyList, Opaque)) else MISSING
        tf = lambda E, fr: [(v, x) for v in fr.locals.values() if isinstance(v, Obj) and v.cls == "GTab" for x in ("n", "f", "len")]; rf = lambda E, fr: [(v, x) for v in fr.locals.values() if isinstance(v, Obj) and v.cls == "GRow" for x in ("n", "f")]
        keep2 = lambda E, fr, n: fr.locals[n] if isinstance(fr.locals[n], Obj) and fr.locals[n].cls in ("GTab", "GRow") else keep(E, fr, n)
        return [Loop("states", inv1, pre=conv(gtab), havoc_local=keep, frame=tf), Loop("symbols", inv2, pre=conv(grow), havoc_local=keep2, frame=rf)]
    def post(self, E, old, a, r):
        if not (isinstance(r, Obj) and r.cls == "GTab"): raise Unsupported("table")
        T = r.fields; g = E.ghost
        return [("one row per state", T["n"] == g["ns"]), ("of one cell per symbol", Forall([I], lambda q: Implies(And(0 <= q, q < g["ns"]), T["len"](q) == g["nk"]))), ("cells are the machine's", Forall([I, I], lambda q, s: Implies(And(0 <= q, q < g["ns"], 0 <= s, s < g["nk"]), And(*[f(q, s) == h(q, s) for f, h in zip(T["f"], (W, D, N))]))))]
class Back(Wrapper):
    module = M; qualname = "backtrack"; params = ["tm_record", "num_steps", "max_width"]
    def args(self, E): return NS(tm_record=record(E), num_steps=E.int("steps"), max_width=E.int("width"))
    def setup(self, E):
        status_stubs(E)
        def tab(E, a): E.prove("the record's machine", a.tm is E.ghost["tm"]); E.ghost["T"] = Opaque("table"); return E.ghost["T"]
        def go(E, a):
            E.prove("searched on the machine's table", a.TTable is E.ghost.get("T")); s = E.bool("success"); E.assume(Implies(s, Not(E.ghost["H"]))); E.ghost["s"] = s
            return E.new(M, "BacktrackResult", success=s, halted=E.bool("halted"), max_steps=E.int("ms"), max_width=E.int("mw"), num_nodes=E.int("nn"))
        stub(E, M, "get_ttable", ["tm"], tab); stub(E, M, "backtrack_ttable", ["TTable", "steps", "max_width"], go)
    def raises(self, E, old, a, ex): return []
    def post(self, E, old, a, r):
        v = bool(verdicts(E)); return [("true exactly with a verdict", r is v), ("a machine shown infinite is recorded", E.ghost["s"] == v)]
CONTRACTS = [Table(), Back()]; LEMMAS = []
