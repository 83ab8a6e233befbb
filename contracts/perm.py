"""Contracts of TNF.py, LNF.permute and Permute.py (C16): the converted table is
a renaming of the original by permutations, and a renaming preserves the run."""
from .ttable import *
class Perm:
    """an order: position -> old label, with its inverse"""
    def __init__(self, E, name, n):
        self.n = n; self.ord = E.func(name, I, I); self.inv = E.func(name + "_inv", I, I)
        f, g = self.ord, self.inv
        E.assume(Forall([I], lambda i: Implies(And(0 <= i, i < n), And(0 <= f(i), f(i) < n, g(f(i)) == i)), patterns=lambda i: [f(i)]))
        E.assume(Forall([I], lambda x: Implies(And(0 <= x, x < n), And(0 <= g(x), g(x) < n, f(g(x)) == x)), patterns=lambda x: [g(x)]))
    def seq(self, E): s = SymSeq(E, lambda i: self.ord(i), self.n, "list"); s.perm = self; return s
def renamed(t, u, P, S, swap, i, j):
    """cell (i,j) of u is cell (P(i),S(j)) of t renamed"""
    q, s = P.ord(i), S.ord(j); run = t.c(q, s) == RUNNING
    return And(u.c(i, j) == t.c(q, s), Ite(run, And(u.w(i, j) == S.inv(t.w(q, s)), u.n(i, j) == P.inv(t.n(q, s)), u.d(i, j) == Ite(swap, 1 - t.d(q, s), t.d(q, s))), And(u.w(i, j) == 1, u.d(i, j) == 1, u.n(i, j) == -1)))
def is_perm(E, s, n):
    if isinstance(s, SymSeq) and getattr(s, "perm", None) is not None: return [("as many as labels", zi(s.length) == n), ("permutation of all labels", z3.simplify(zi(s.perm.n) == n) if False else zi(s.perm.n) == n)]
    if isinstance(s, Obj) and s.cls == "Order":   # by TransferLemma, the order and the waiting set partition the labels; here nothing waits any more
        return [("order of this kind of label", s.meta["n"] == n), ("no label is waiting or in transfer", And(s.fields["tr"] == 0, s.meta["set"].fields["size"] == 0, s.fields["len"] == n))]
    if isinstance(s, PyList) and len(s.items) == 1 and s.items[0] == 0: return [("single label", n == 1)]
    if not isinstance(s, SymSeq): raise Unsupported("order %r" % (s,))
    g = s.get
    return [("as many as labels", zi(s.length) == n), ("labels in range", Forall([I], lambda i: Implies(And(0 <= i, i < n), And(0 <= g(i), g(i) < n)))), ("labels are distinct", Forall([I, I], lambda i, j: Implies(And(0 <= i, i < j, j < n), g(i) != g(j))))]
class PermuteTable(Contract):
    feas_ms = 150; module = "TNF"; qualname = "permute_table"; params = ["old_tm", "state_order", "symbol_order", "swap_dirs"]
    def args(self, E):
        tm = mk_tm(E); P = Perm(E, "so", zi(tm.fields["num_states"])); S = Perm(E, "yo", zi(tm.fields["num_symbols"])); E.ghost["P"] = (P, S); E.ghost["old"] = tm
        return NS(old_tm=tm, state_order=P.seq(E), symbol_order=S.seq(E), swap_dirs=E.bool("swap"))
    def pre(self, E, a): return [("states: " + l, c) for l, c in is_perm(E, a.state_order, zi(a.old_tm.fields["num_states"]))] + [("symbols: " + l, c) for l, c in is_perm(E, a.symbol_order, zi(a.old_tm.fields["num_symbols"]))]
    def old(self, E, a): return NS(tab=tab_of(a.old_tm), T=a.old_tm.fields["trans_table"])
    def loops(self):
        def newt(E, env):
            r = [v for v in env.fr.locals.values() if isinstance(v, Obj) and getattr(v.cls, "name", "") == "Simple_Machine" and v is not E.ghost["old"]]
            if len(r) != 1: raise Unsupported("no new machine local")
            return tab_of(r[0])
        def body(E, env, done):
            P, S = E.ghost["P"]; u = newt(E, env); t = tab_of(E.ghost["old"]); sw = E.truth(env.swap_dirs)
            return [("renamed so far", Forall([I, I], lambda i, j: Implies(And(0 <= i, i < P.n, 0 <= j, j < S.n, done(i, j)), renamed(t, u, P, S, sw, i, j))))]
        def rows(E, env): k = zi(env.extra["k"]); return body(E, env, lambda i, j: i < k)
        def rhead(E, env): E.ghost["rk"] = zi(env.extra["k"])
        def cols(E, env): k = zi(env.extra["k"]); rk = E.ghost["rk"]; return body(E, env, lambda i, j: Or(i < rk, And(i == rk, j < k)))
        return [Loop("states", rows, head=rhead), Loop("symbols", cols)]
    def post(self, E, old, a, r):
        if not (isinstance(r, Obj) and getattr(r.cls, "name", "") == "Simple_Machine"): return [("a machine", False)]
        P, S = E.ghost["P"]; u = tab_of(r)
        return [("every cell is renamed", Forall([I, I], lambda i, j: Implies(And(0 <= i, i < P.n, 0 <= j, j < S.n), renamed(old.tab, u, P, S, E.truth(a.swap_dirs), i, j)))), ("a machine of its own", r.fields["trans_table"] is not a.old_tm.fields["trans_table"]),
                ("same size", And(zi(r.fields["num_states"]) == P.n, zi(r.fields["num_symbols"]) == S.n)), ("original unchanged", Forall([I, I], lambda q, s: tab_of(a.old_tm).same(old.tab, q, s)))]
    def apply_call(self, E, f, argv):
        a = NS(**dict(zip(self.params, argv)))
        for lab, c in self.pre(E, a): E.prove("call permute_table: requires " + lab, c, "pre")
        r = mk_tm(E, "perm", ns=zi(a.old_tm.fields["num_states"]), nk=zi(a.old_tm.fields["num_symbols"])); r.meta["perm"] = (a.old_tm, a.state_order, a.symbol_order, a.swap_dirs); return r
class RunLemma(Lemma):
    """one step of the renamed machine is the renamed step, so by induction the
    runs correspond step by step, and halting happens at the same step"""
    name = "a renamed table has the renamed run"
    def obligations(self, E):
        ns, nk = E.int("ns"), E.int("nk"); E.assume([ns >= 1, nk >= 1]); t, u = fresh_tab(E, "t", ns, nk), fresh_tab(E, "u", ns, nk); P, S = Perm(E, "P", ns), Perm(E, "S", nk); sw = E.bool("swap")
        E.assume(Forall([I, I], lambda i, j: Implies(And(0 <= i, i < ns, 0 <= j, j < nk), renamed(t, u, P, S, sw, i, j)), patterns=lambda i, j: [u.c(i, j)]))
        E.assume(Forall([I, I], lambda i, j: Implies(And(0 <= i, i < ns, 0 <= j, j < nk), wf_cell(t, i, j, ns, nk)), patterns=lambda i, j: [t.c(i, j)]))
        T0, U0 = E.func("T0", I, I), E.func("U0", I, I); q, p = E.int("q"), E.int("p"); m = lambda x: Ite(sw, -x, x)
        E.assume([0 <= q, q < ns]); E.assume(Forall([I], lambda x: And(0 <= T0(x), T0(x) < nk, U0(m(x)) == S.inv(T0(x))), patterns=lambda x: [T0(x)]))
        E.assume(Forall([I], lambda x: U0(x) == S.inv(T0(m(x))), patterns=lambda x: [U0(x)]))
        q2, p2 = P.inv(q), m(p); s = T0(p); s2 = U0(p2)
        E.prove("reads the renamed symbol", s2 == S.inv(s)); E.prove("same cell", And(P.ord(q2) == q, S.ord(s2) == s, 0 <= q2, q2 < ns, 0 <= s2, s2 < nk))
        E.prove("same kind of transition", u.c(q2, s2) == t.c(q, s)); E.assume(t.c(q, s) == RUNNING)
        E.prove("renamed next state", u.n(q2, s2) == P.inv(t.n(q, s))); E.prove("renamed position", Ite(u.d(q2, s2) == 1, p2 + 1, p2 - 1) == m(Ite(t.d(q, s) == 1, p + 1, p - 1)))
        x = E.int("x"); T1 = Ite(x == p, t.w(q, s), T0(x)); E.prove("renamed tape", Ite(m(x) == p2, u.w(q2, s2), U0(m(x))) == S.inv(T1))
class LnfPermute(Contract):
    """renamed table, starting in the renamed start state on the renamed blank"""
    module = "LNF"; qualname = "permute"; params = ["old_tm", "state_order", "symbol_order", "swap_dirs"]
    def args(self, E):
        tm = mk_tm(E); P = Perm(E, "so", zi(tm.fields["num_states"])); S = Perm(E, "yo", zi(tm.fields["num_symbols"])); E.ghost["P"] = (P, S)
        return NS(old_tm=tm, state_order=P.seq(E), symbol_order=S.seq(E), swap_dirs=E.bool("swap"))
    def post(self, E, old, a, r):
        P, S = E.ghost["P"]; m = r.meta.get("perm") if isinstance(r, Obj) else None
        if m is None: return [("a permuted machine", False)]
        return [("permuted as asked", m[0] is a.old_tm and m[1] is a.state_order and m[2] is a.symbol_order and (m[3] is a.swap_dirs)), ("start state is the renamed start state", And(zi(r.fields["init_state"]) == P.inv(0))), ("blank is the renamed blank", zi(r.fields["init_symbol"]) == S.inv(0))]
# ---- to_TNF --------------------------------------------------------------------
def uf(t): return [t] if is_z(t) and z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() else None
def mk_iset(E, has, size): return Obj(E, "ISet", {"has": has, "size": size})
def b_set(E, args, kw):
    it = args[0] if args else None
    if isinstance(it, SymRange): hi = zi(it.hi); return mk_iset(E, lambda x: And(0 <= x, x < hi), hi)
    return MISSING
def iset_bin(E, op, a, b):
    import ast as _a
    if isinstance(op, _a.Sub) and isinstance(a, Obj) and a.cls == "ISet" and isinstance(b, (PySet, PyList)):
        h, n = a.fields["has"], a.fields["size"]
        for x in b.items:
            x = zi(x)
            if E.branch(h(x)): h, n = (lambda y, h=h, x=x: And(y != x, h(y))), n - 1
        return mk_iset(E, h, n)
    raise Unsupported("set arithmetic")
def iset_attr(E, o, name):
    F = o.fields
    def drop(x):
        E.assume(F["size"] >= 1); h = F["has"]; E.setfield(o, "has", lambda y: And(y != x, h(y))); E.setfield(o, "size", F["size"] - 1)
        O = o.meta.get("order")
        if O is not None:
            E.prove("the label taken from the waiting set goes to the order", Or(O.fields["tr"] == 0, And(O.fields["tr"] == 1, O.fields["tx"] == x)))
            E.setfield(O, "tr", Ite(O.fields["tr"] == 1, 0, 2)); E.setfield(O, "tx", x)
    if name in ("remove", "discard"):
        def f(E, x):
            x = zi(x)
            if not E.branch(F["has"](x)):
                if name == "remove": raise PyRaise("KeyError")
                return
            drop(x)
        return f
    if name == "pop":
        def f(E):
            if not E.branch(F["size"] >= 1): raise PyRaise("KeyError")
            x = E.int("popped"); E.assume(F["has"](x)); drop(x); return x
        return f
    raise Unsupported("set." + name)
def order_attr(E, o, name):
    if name == "append":
        def f(E, x):
            x = zi(x); F = o.fields; S = o.meta["set"]
            E.prove("the label appended comes from the waiting set", Or(And(F["tr"] == 0, S.fields["has"](x)), And(F["tr"] == 2, F["tx"] == x)))
            E.setfield(o, "tr", Ite(F["tr"] == 2, 0, 1)); E.setfield(o, "tx", x); E.setfield(o, "len", F["len"] + 1)
        return f
    raise Unsupported("order." + name)
def iset_havoc(E, o, f):
    if f == "has": g = E.func("shas", I, B); o.fields["has"] = lambda x: g(x); return True
    return False
def sim_attr(E, o, name):
    tm = o.fields["tm"]
    if name == "step": 
        def f(E):
            for k in ("state", "sym"): E.setfield(o, k, E.int(k))
            E.setfield(o, "halted", E.bool("halted")); E.setfield(o, "step_num", E.int("steps")); wf_sim(E, o)
        return f
    if name == "tape": return Obj(E, "SimTape", {"sim": o})
    return MISSING
def wf_sim(E, o):
    tm = o.fields["tm"]; F = o.fields; E.assume([-1 <= F["state"], F["state"] < zi(tm.fields["num_states"]), 0 <= F["sym"], F["sym"] < zi(tm.fields["num_symbols"])])
def new_sim(E, c, args, kw):
    o = Obj(E, "Sim", {"tm": args[0], "state": z3.IntVal(0), "sym": z3.IntVal(0), "halted": E.bool("halted"), "step_num": z3.IntVal(0)}); return o
def simtape_attr(E, o, name):
    if name == "read": return lambda E: o.fields["sim"].fields["sym"]
    raise Unsupported("tape." + name)
class ToTNF(Contract):
    """a permutation of all states and symbols fixing the start state and the
    blank, mirrored exactly when the first move is to the left"""
    feas_ms = 150; module = "TNF"; qualname = "to_TNF"; params = ["tm", "max_steps"]
    def args(self, E): tm = mk_tm(E); E.ghost["tm"] = tm; return NS(tm=tm, max_steps=E.int("max_steps"))
    def loops(self):
        def parts(E, env):
            S = [v for v in env.fr.locals.values() if isinstance(v, Obj) and v.cls == "ISet"]; O = [v for v in env.fr.locals.values() if isinstance(v, Obj) and v.cls == "Order"]
            if len(S) != 2 or len(O) != 2: raise Unsupported("orders not found")
            return [(O[0], S[0], zi(E.ghost["tm"].fields["num_states"])), (O[1], S[1], zi(E.ghost["tm"].fields["num_symbols"]))]
        def pre(E, env):
            for n, v in list(env.fr.locals.items()):
                if isinstance(v, PyList) and len(v.items) == 1 and v.items[0] == 0: env.fr.locals[n] = Obj(E, "Order", {"len": z3.IntVal(1), "tr": z3.IntVal(0), "tx": z3.IntVal(0)})
            for o, s, n in parts(E, env):
                x = E.int("x"); o.meta["set"], s.meta["order"], o.meta["n"] = s, o, n
                E.prove("exactly the labels other than 0 are waiting", And(s.fields["size"] == n - 1, s.fields["has"](x) == And(0 < x, x < n)))
        def inv(E, env):
            out = []
            for w, (o, s, n) in zip(("states", "symbols"), parts(E, env)):
                out += [(w + ": every label is either ordered or waiting, none both", And(o.fields["tr"] == 0, o.fields["len"] + s.fields["size"] == n, s.fields["size"] >= 0))]
            return out
        def hh(E, fr, o, f):
            return False
        return [Loop("ordering", inv, pre=pre, havoc_heap=hh)]
    def post(self, E, old, a, r):
        if r is None: return []
        m = r.meta.get("perm") if isinstance(r, Obj) else None
        if m is None: return [("a permuted machine", False)]
        t = tab_of(a.tm); so, yo = m[1], m[2]
        ok = lambda o: isinstance(o, Obj) and o.cls == "Order"     # starts as [0] and is only appended to: label 0 stays first
        return [("of this machine", m[0] is a.tm), ("start state stays first", ok(so)), ("blank stays first", ok(yo)), ("mirrored exactly when the first move is to the left", zb(E.truth(m[3])) == (t.d(0, 0) == 0))]
def dictcomp(E, e):
    """{key: value for ... in seq} over a symbolic sequence with distinct keys"""
    g = e.generators[0]
    if len(e.generators) != 1 or g.ifs: return MISSING
    it = E.eval(g.iter)
    if not isinstance(it, SymSeq): return MISSING
    fr = E.frames[-1]
    def at(i, ex):
        nf = Frame(fr.func, dict(fr.locals), fr.module, fr.closure); E.frames.append(nf); n = len(E.dec)
        try: E.assign(g.target, it.get(i)); v = E.eval(ex)
        finally: E.frames.pop()
        if len(E.dec) != n: raise Unsupported("branching in symbolic comprehension")
        return v
    n = zi(it.length); w = E.func("where", I, I); key = lambda i: zi(at(i, e.key)); val = lambda i: zi(at(i, e.value))
    E.prove("dictionary keys are distinct", Forall([I, I], lambda i, j: Implies(And(0 <= i, i < j, j < n), key(i) != key(j))))
    E.assume(Forall([I], lambda i: Implies(And(0 <= i, i < n), w(key(i)) == i), patterns=lambda i: [key(i)]))
    def has(x):
        for P in E.ghost.get("P", ()): E.assume(Implies(And(0 <= zi(x), zi(x) < P.n), And(0 <= P.inv(zi(x)), P.inv(zi(x)) < P.n, P.ord(P.inv(zi(x))) == zi(x))))   # instance of the definition of the inverse
        return And(0 <= w(zi(x)), w(zi(x)) < n, key(w(zi(x))) == zi(x))
    return SymMap(E, has, lambda x: val(w(zi(x))))
class TransferLemma(Lemma):
    """moving one label from the waiting set to the end of the order keeps: the order
    has no repetition, its labels are in range, and every label is in exactly one of the two"""
    name = "order and waiting set partition the labels"
    def obligations(self, E):
        n, m, x = E.int("n"), E.int("m"), E.int("x"); g, ix = E.func("g", I, I), E.func("ix", I, I); has = E.func("has", I, B)
        def P(g, m, ix, has, i, y): return And(Implies(And(0 <= i, i < m), And(0 <= g(i), g(i) < n, ix(g(i)) == i, Not(has(g(i))))), Implies(has(y), And(0 <= y, y < n)), Implies(And(0 <= y, y < n, Not(has(y))), And(0 <= ix(y), ix(y) < m, g(ix(y)) == y)))
        E.assume(Forall([I, I], lambda i, y: P(g, m, ix, has, i, y), patterns=lambda i, y: [[g(i), has(y)]])); E.assume([has(x), m >= 1, n >= 1])
        i, y = E.int("i"), E.int("y")
        E.assume([P(g, m, ix, has, i, y), P(g, m, ix, has, i, x), P(g, m, ix, has, m, x)])
        E.prove("kept by one transfer", P(lambda k: Ite(k == m, x, g(k)), m + 1, lambda z: Ite(z == x, m, ix(z)), lambda z: And(z != x, has(z)), i, y))
        j = E.int("j"); E.assume([P(g, m, ix, has, i, y), P(g, m, ix, has, j, y)])
        E.prove("no repetition", Implies(And(0 <= i, i < j, j < m), g(i) != g(j)))
class StartState(Contract):
    """each machine with the same table but another start state, once, in order"""
    module = "Permute"; qualname = "permute_start_state"; params = ["tm", "tnf_max_steps"]
    def args(self, E):
        tm = mk_tm(E); E.ghost["tm"] = tm; c = Obj(E, "Ctr", {"y": z3.IntVal(0)}); E.ghost["c"] = c; E.ghost["on_yield"] = self.on_yield; return NS(tm=tm, tnf_max_steps=E.int("m"))
    def modifies(self, E, a): return [(E.ghost["c"], None)]
    def on_yield(self, E, v):
        c = E.ghost["c"]; tm = E.ghost["tm"]; y = c.fields["y"]; src = v.meta.get("tnf_of") if isinstance(v, Obj) else None; m = src.meta.get("perm") if src is not None else None
        if m is None: E.prove("a normalised permutation of the machine", False); return
        so, yo = m[1].get, m[2].get; nk = zi(tm.fields["num_symbols"])
        E.prove("of this machine, not mirrored", And(m[0] is tm, Not(zb(E.truth(m[3]))))); E.prove("start state is the next one", so(z3.IntVal(0)) == y)
        E.prove("symbols keep their names", Forall([I], lambda i: Implies(And(0 <= i, i < nk), yo(i) == i))); E.setfield(c, "y", y + 1)
    def loops(self): return [Loop("start states", lambda E, env: [("in order", E.ghost["c"].fields["y"] == zi(env.extra["k"]))])]
    def post(self, E, old, a, r): return [("every start state once", E.ghost["c"].fields["y"] == zi(a.tm.fields["num_states"]))]
class TryTnf(Contract):
    module = "Permute"; qualname = "try_tnf"; params = ["tm", "tnf_max_steps"]
    def args(self, E): return NS(tm=mk_tm(E), tnf_max_steps=E.int("m"))
    def post(self, E, old, a, r): return [("the machine itself or its normal form", r is a.tm or isinstance(r, Obj) and r.meta.get("of") is a.tm)]
    def apply_call(self, E, f, argv): r = Obj(E, argv[0].cls, {}); r.meta["tnf_of"] = argv[0]; return r
class _T(ToTNF): pass
def tnf_call(E, f, argv):
    if E.choose(2) == 0: return None
    r = Obj(E, argv[0].cls, {}); r.meta["of"] = argv[0]; return r
def seq_index(E, o, x):
    p = getattr(o, "perm", None)
    if p is None: raise Unsupported("index in a symbolic list")
    E.assume(And(0 <= p.inv(zi(x)), p.inv(zi(x)) < p.n, p.ord(p.inv(zi(x))) == zi(x))) if E.branch(And(0 <= zi(x), zi(x) < p.n)) else None
    return p.inv(zi(x))
CONTRACTS = [PermuteTable(), LnfPermute(), ToTNF(), StartState(), TryTnf()]
CONTRACTS[2].apply_call = tnf_call
LEMMAS = ["RunLemma", "TransferLemma"]
EXTS = dict(EXTS)
EXTS.update({("dictcomp", "*"): dictcomp, ("builtin", "set"): b_set, ("binop", "ISet"): iset_bin, ("ISet", "attr"): iset_attr, ("ISet", "contains"): lambda E, o, x: o.fields["has"](zi(x)), ("ISet", "truth"): lambda E, o: o.fields["size"] != 0, ("ISet", "len"): lambda E, o: o.fields["size"], ("ISet", "havoc"): iset_havoc,
             ("Order", "attr"): order_attr, ("Sim", "attr"): sim_attr, ("SimTape", "attr"): simtape_attr, ("new", "DirectSimulator"): new_sim, ("seq", "index"): seq_index})
