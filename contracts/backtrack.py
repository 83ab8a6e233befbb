"""Contracts of Backtracking_Filter.py (C09).

The run: St, Po, Ta (tmspec), from the blank tape in state 0.  A partial
configuration matches time t if its state, its current symbol and all its known
cells are those of the run.  Level 1 proves the operations on partial
configurations against that definition; level 2 (the search) only uses a match
relation MT(id, t) with the facts proved at level 1."""
import ast, z3
from pyvc.engine import *
from pyvc.contract import *
from . import ttable as TT, reveng as R
from .tmspec import *
M = "Backtracking_Filter"; B = z3.BoolSort()
W, D, N = [z3.Function("cell_" + x, I, I, I) for x in ("write", "dir", "next")]      # (state, symbol)
MT = z3.Function("matches", I, I, B); CS = z3.Function("config_state", I, I)
NR = z3.Function("never_reached", I, I, B)
def rd(t): return Ta(t, Po(t))
def wf(q, s): return And(D(q, s) >= 0, D(q, s) <= 1, N(q, s) >= -1, W(q, s) >= 0)
# ---- level 1: partial configurations ---------------------------------------------------
def side(E, nm):
    f = E.func(nm, I, I); n = E.int(nm + "_n"); E.assume(n >= 0); return SymSeq(E, lambda i: f(i), n, "list", mk=lambda E, x: (lambda g: (lambda i: g(i)))(E.func(x, I, I)))
def config(E): return E.new(M, "Partial_Config", dir=(side(E, "left"), side(E, "right")), current=E.int("current"), state=E.int("state"))
def slen(x): return z3.IntVal(len(x.items)) if isinstance(x, PyList) else zi(x.length)
def sget(x, i):
    if isinstance(x, SymSeq): return zi(x.get(i))
    r = z3.IntVal(0)
    for k, v in enumerate(x.items): r = Ite(i == k, zi(v), r)
    return r
def match(E, c, t):
    """list of the parts of `c matches the run at t`"""
    F = c.fields; d = F["dir"]
    if not (isinstance(d, tuple) and len(d) == 2): raise Unsupported("sides")
    P = lambda s: (lambda i: Po(t) - 1 - i) if s == 0 else (lambda i: Po(t) + 1 + i)
    return [("state", zi(F["state"]) == St(t)), ("current symbol", zi(F["current"]) == rd(t))] + [("%s cells" % ("left", "right")[s], Forall([I], lambda i, s=s: Implies(And(0 <= i, i < slen(d[s])), sget(d[s], i) == Ta(t, P(s)(i))))) for s in (0, 1)]
def assume_match(E, c, t):
    d = c.fields["dir"]; E.assume([zi(c.fields["state"]) == St(t), zi(c.fields["current"]) == rd(t)])
    for s in (0, 1):
        P = (lambda i: Po(t) - 1 - i) if s == 0 else (lambda i: Po(t) + 1 + i)
        E.assume(Forall([I], lambda i: Implies(And(0 <= i, i < slen(d[s])), sget(d[s], i) == Ta(t, P(i))), patterns=lambda i: [sget(d[s], i)])); E.assume(Implies(0 < slen(d[s]), sget(d[s], z3.IntVal(0)) == Ta(t, P(z3.IntVal(0)))))
def dcopy(E, o, memo=None):
    if isinstance(o, tuple): return tuple(dcopy(E, x) for x in o)
    if isinstance(o, SymSeq): return SymSeq(E, o.get, o.length, o.kind, o.mk, o.tag)
    if isinstance(o, PyList): return PyList(E, [dcopy(E, x) for x in o.items], o.kind)
    if isinstance(o, Obj):
        r = Obj(E, o.cls, {})
        for k, v in o.fields.items(): r.fields[k] = dcopy(E, v)
        return r
    return o
def step_into(E, c):
    """an arbitrary running step t -> t + 1 of the run whose result c matches, and the transition it took"""
    t = E.int("t"); E.assume([t >= 0, St(t) != -1]); unfold(E, t); q, s = St(t), rd(t); d = E.case(0, 1); w, n = SO(s, q), NX(s, q); E.assume(DO(s, q) == d); E.ghost.update(t=t)
    assume_match(E, c, t + 1)
    for x in range(-2, 3): E.assume(Ta(t + 1, Po(t) + x) == z3.If(x == 0, w, Ta(t, Po(t) + x)))
    E.assume(Ta(t + 1, Po(t)) == w); return ((q, s), (w, d, n))
class PInit(Contract):
    module = M; qualname = "Partial_Config.__init__"; params = ["self", "state", "symbol"]
    def args(self, E): t = E.int("t"); E.assume(t >= 0); E.ghost["t"] = t; return NS(self=E.new(M, "Partial_Config"), state=St(t), symbol=rd(t))
    def modifies(self, E, a): return [(a.self, None)]
    def post(self, E, old, a, r): return [("matches: " + l, c) for l, c in match(E, a.self, E.ghost["t"])]
    def apply_call(self, E, f, argv):
        o, h, y = argv; i = E.int("cid"); T = E.ghost["T"]; E.setfield(o, "id", i); E.setfield(o, "state", CS(i)); E.assume(CS(i) == zi(h)); E.assume(Implies(And(zi(h) == St(T), zi(y) == rd(T)), MT(i, T)))
class Applies(Contract):
    """the transition that was taken applies"""
    module = M; qualname = "Partial_Config.applies"; params = ["self", "addr", "cell"]
    def args(self, E): c = config(E); a, cell = step_into(E, c); return NS(self=c, addr=a, cell=cell)
    def post(self, E, old, a, r): return [("the transition taken is not excluded", E.truth(r))]
    def apply_call(self, E, f, argv):
        o, addr, cell = argv; q, s = addr; t = E.ghost["tt"]; tuple_is(E, cell, q, s); r = E.bool("applies"); E.assume(Implies(And(MT(o.fields["id"], t + 1), zi(q) == St(t), zi(s) == rd(t)), r)); return r
class ApplyTrans(Contract):
    """undoing the transition that was taken gives a configuration matching the time before"""
    module = M; qualname = "Partial_Config.apply_trans"; params = ["self", "addr", "cell"]; exts = {("external", "copy.deepcopy"): dcopy}
    def args(self, E): c = config(E); a, cell = step_into(E, c); return NS(self=c, addr=a, cell=cell)
    def old(self, E, a): return NS(d=a.self.fields["dir"], n=[(x, x.length) for x in a.self.fields["dir"]])
    def post(self, E, old, a, r):
        if not isinstance(r, Obj): raise Unsupported("result")
        return [("matches the time before: " + l, c) for l, c in match(E, r, E.ghost["t"])]
    def apply_call(self, E, f, argv):
        o, addr, cell = argv; q, s = addr; t = E.ghost["tt"]; tuple_is(E, cell, q, s); i = E.int("cid"); r = E.new(M, "Partial_Config", id=i, state=CS(i)); E.assume(Implies(And(MT(o.fields["id"], t + 1), zi(q) == St(t), zi(s) == rd(t)), MT(i, t))); return r
def tuple_is(E, cell, q, s):
    if not (isinstance(cell, tuple) and len(cell) == 3): raise Unsupported("cell")
    E.prove("the cell passed is the table's", And(zi(cell[0]) == W(zi(q), zi(s)), zi(cell[1]) == D(zi(q), zi(s)), zi(cell[2]) == N(zi(q), zi(s))))
class IsInit(Contract):
    """a configuration matching the start is recognised"""
    module = M; qualname = "is_init_config"; params = ["config"]
    def args(self, E):
        c = config(E); E.assume(St(0) == 0); E.assume(Forall([I], lambda x: Ta(0, x) == 0, patterns=lambda x: [Ta(0, x)])); assume_match(E, c, z3.IntVal(0)); E.assume(rd(z3.IntVal(0)) == 0); return NS(config=c)
    def loops(self): return [Loop("cells", lambda E, env: []), Loop("cells 2", lambda E, env: [])]
    def post(self, E, old, a, r): return [("the start is recognised", E.truth(r))]
    def apply_call(self, E, f, argv): r = E.bool("init"); E.assume(Implies(MT(argv[0].fields["id"], 0), r)); return r
def d2_new(E):
    h = E.func("found_on", I, I, B); return Obj(E, "D2S", {"has": lambda y, d: h(y, d)})
def k01(k):
    if isinstance(k, bool): return z3.IntVal(int(k))
    if is_zbool(k): return Ite(k, z3.IntVal(1), z3.IntVal(0))
    return zi(k)
def d2_get(E, o, y): return Obj(E, "D2Row", {"o": o, "y": zi(y)})
def d2row_get(E, o, k): return o.fields["o"].fields["has"](o.fields["y"], k01(k))
def d2row_set(E, o, k, v):
    p = o.fields["o"]; h = p.fields["has"]; y, k, v = o.fields["y"], k01(k), zb(E.truth(v)); E.note_write("field", p, "has"); p.fields["has"] = lambda a, b: Ite(And(a == y, b == k), v, h(a, b)); return True
def d2_set(E, o, y, v):
    if not (isinstance(v, PyList) and len(v.items) == 2): raise Unsupported("row stored")
    a0, a1 = [zb(E.truth(x)) for x in v.items]; h = o.fields["has"]; y = zi(y); E.note_write("field", o, "has"); o.fields["has"] = lambda a, b: Ite(a == y, Ite(b == 0, a0, a1), h(a, b)); return True
def d2_havoc(E, o, f): h = E.func("found_on", I, I, B); o.fields["has"] = lambda y, d: h(y, d); return True
class IsPossible(Contract):
    """a configuration of the run is never excluded"""
    module = M; qualname = "is_possible_config"; params = ["config", "dir_to_symbol"]
    def args(self, E):
        c = config(E); t = E.int("t"); o = d2_new(E); h = o.fields["has"]; assume_match(E, c, t)
        # lemma Sides
        E.assume(Forall([I], lambda x: And(Implies(x < Po(t), h(Ta(t, x), z3.IntVal(0))), Implies(x > Po(t), h(Ta(t, x), z3.IntVal(1)))), patterns=lambda x: [Ta(t, x)])); return NS(config=c, dir_to_symbol=o)
    def loops(self): return [Loop("cells", lambda E, env: []), Loop("cells 2", lambda E, env: [])]
    def post(self, E, old, a, r): return [("a configuration of the run is possible", E.truth(r))]
    def apply_call(self, E, f, argv):
        E.prove("call is_possible_config: the table of this machine", argv[1] is E.ghost["d2"]); r = E.bool("possible"); t = E.ghost["tt"]; E.assume(Implies(MT(argv[0].fields["id"], t), r)); return r
class Sides(Lemma):
    name = "symbols on a side of the head were written moving away from that side, or are blank"
    def obligations(self, E):
        t, x = E.int("t"), E.int("x"); h = E.func("found_on", I, I, B); J = lambda t, x: And(Implies(x < Po(t), h(Ta(t, x), 0)), Implies(x > Po(t), h(Ta(t, x), 1))); E.assume([t >= 0, h(0, 0), h(0, 1), Ta(0, x) == 0]); E.prove("initially", J(z3.IntVal(0), x))
        unfold(E, t); q, s = St(t), rd(t); E.assume([St(t) != -1, J(t, x), h(SO(s, q), 1 - DO(s, q))]); E.assume(Ta(t + 1, x) == z3.If(x == Po(t), SO(s, q), Ta(t, x))); E.prove("kept", J(t + 1, x))
# ---- the transition table --------------------------------------------------------------
def tab_get(E, o, q): return Obj(E, "TRow", {"q": TT.idx(E, q, o.fields["ns"]), "nk": o.fields["nk"]})
def trow_get(E, o, s): q = o.fields["q"]; s = TT.idx(E, s, o.fields["nk"]); E.assume(wf(q, s)); E.assume([Implies(N(q, s) >= 0, And(N(q, s) < E.ghost["ns"], W(q, s) < E.ghost["nk"]))]); return (W(q, s), D(q, s), N(q, s))
def trow_iter(E, o): q = o.fields["q"]; return o.fields["nk"], lambda k: (W(q, zi(k)), D(q, zi(k)), N(q, zi(k)))
def btable(E): ns, nk = E.int("ns"), E.int("nk"); E.assume([ns >= 1, nk >= 1]); E.ghost.update(ns=ns, nk=nk); return Obj(E, "BTable", {"ns": ns, "nk": nk})
def brow_attr(E, o, name):
    if name != "append": return MISSING
    def f(E, v):
        if not (isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], tuple) and len(v[0]) == 2): raise Unsupported("entry")
        (q, s), c = v; tuple_is(E, c, q, s); R.push(E, o.fields["lol"], zi(o.fields["i"]), zi(q), zi(s))
    return f
def bentry(E, q, s): return ((q, s), (W(q, s), D(q, s), N(q, s)))
def brow_iter(E, o): F = o.fields["lol"].fields; i = zi(o.fields["i"]); return F["len"](i), lambda k: bentry(E, F["q"](i, zi(k)), F["s"](i, zi(k)))
def compelt(E, it, e):
    if isinstance(e.elt, ast.List):
        if not e.elt.elts: return R.lol(E, R.rng_len(E, it))
        v = [E.eval(x) for x in e.elt.elts]
        if len(v) == 2 and all(isinstance(x, bool) for x in v):
            o = d2_new(E); o.fields["has"] = lambda y, d: Ite(d == 0, z3.BoolVal(v[0]), z3.BoolVal(v[1])); return o
    return MISSING
EX = dict(R.EX); EX.update({("compelt", "*"): compelt, ("BTable", "getitem"): tab_get, ("BTable", "len"): lambda E, o: o.fields["ns"], ("TRow", "getitem"): trow_get, ("TRow", "len"): lambda E, o: o.fields["nk"], ("TRow", "iter"): trow_iter,
      ("LRow", "attr"): brow_attr, ("LRow", "iter"): brow_iter, ("LRow", "getitem"): None, ("D2S", "getitem"): d2_get, ("D2S", "setitem"): d2_set, ("D2S", "havoc"): d2_havoc, ("D2Row", "getitem"): d2row_get, ("D2Row", "setitem"): d2row_set})
EX.pop(("LRow", "getitem")); EX.pop(("external", "copy.deepcopy"), None)
def bcover(S, H, X, inr):
    return [("every transition is listed under its target, every halting cell as a halt", Forall([I, I], lambda q, s: Implies(inr(q, s), Ite(N(q, s) == -1, R.covered(H, z3.IntVal(0), q, s), R.covered(S, N(q, s), q, s))), patterns=lambda q, s: [N(q, s)])),
            ("every symbol written is allowed on the side left behind", Forall([I, I], lambda q, s: Implies(And(inr(q, s), N(q, s) != -1), X.fields["has"](W(q, s), 1 - D(q, s))), patterns=lambda q, s: [N(q, s)])),
            ("blanks are allowed on both sides", And(X.fields["has"](z3.IntVal(0), z3.IntVal(0)), X.fields["has"](z3.IntVal(0), z3.IntVal(1))))]
class GetInfo(Contract):
    module = M; qualname = "get_info"; params = ["TTable"]
    def args(self, E): return NS(TTable=btable(E))
    def loops(self):
        def pre(E, env):
            for n, v in list(env.fr.locals.items()):
                if isinstance(v, PyList) and not v.items: env.fr.locals[n] = R.hl_new(E)
        def objs(E, env):
            L = env.fr.locals; s, x, h = L.get("to_state"), L.get("dir_to_symbol"), L.get("halts")
            if not all(isinstance(v, Obj) for v in (s, x, h)): raise Unsupported("locals of get_info")
            return s, h, x
        def inv_at(E, env, q0, s0):
            S, H, X = objs(E, env); return [("lengths", Forall([I], lambda i: And(S.fields["len"](i) >= 0, H.fields["len"](i) >= 0)))] + bcover(S, H, X, lambda q, s: And(0 <= q, 0 <= s, s < E.ghost["nk"], Or(q < q0, And(q == q0, s < s0))))
        def head(E, env): E.ghost["q0"] = zi(env.extra["k"])
        def fr(E, f): return [(v, x) for v in f.locals.values() if isinstance(v, Obj) and v.cls in ("LoL", "HL") for x in ("len", "q", "s", "idx")] + [(v, "has") for v in f.locals.values() if isinstance(v, Obj) and v.cls == "D2S"]
        hv = lambda E, fr, n: Opaque("loop variable") if isinstance(fr.locals[n], (tuple, Opaque)) else MISSING
        return [Loop("states", lambda E, env: inv_at(E, env, zi(env.extra["k"]), z3.IntVal(0)), pre=pre, head=head, frame=fr, havoc_local=hv), Loop("symbols", lambda E, env: inv_at(E, env, E.ghost["q0"], zi(env.extra["k"])), frame=fr, havoc_local=hv)]
    def post(self, E, old, a, r):
        if not (isinstance(r, tuple) and len(r) == 3 and all(isinstance(x, Obj) for x in r)): raise Unsupported("result")
        H, S, X = r; return bcover(S, H, X, lambda q, s: And(0 <= q, q < E.ghost["ns"], 0 <= s, s < E.ghost["nk"]))
    def apply_call(self, E, f, argv):
        g = E.ghost; E.prove("call get_info: of the table given", argv[0] is g["table"]); S, H, X = R.lol(E, g["ns"], False), R.hl_new(E, False), d2_new(E); g.update(S=S, H=H, d2=X)
        for l, c in bcover(S, H, X, lambda q, s: And(0 <= q, q < g["ns"], 0 <= s, s < g["nk"])): E.assume(c)
        E.assume(H.fields["len"](z3.IntVal(0)) >= 0); return (H, S, X)
# ---- level 2: the search -----------------------------------------------------------------
def pcs(E, n=None, at=None): f = E.func("at", I, I); return Obj(E, "PCs", {"n": n if n is not None else E.int("n"), "at": at or (lambda j: f(j)), "w": E.int("witness")})
def to_pcs(E, v):
    if isinstance(v, PyList) and all(isinstance(x, Obj) and "id" in x.fields for x in v.items):
        ids = [x.fields["id"] for x in v.items]
        def at(j):
            r = z3.IntVal(-1)
            for k, i in enumerate(ids): r = Ite(j == k, i, r)
            return r
        o = pcs(E, z3.IntVal(len(ids)), at); o.fields["w"] = z3.IntVal(0); return o
    return v
def pcs_attr(E, o, name):
    if name != "append": return MISSING
    def f(E, v):
        i = v.fields["id"]; n, at, w = zi(o.fields["n"]), o.fields["at"], o.fields["w"]
        for x in ("n", "at", "w"): E.note_write("field", o, x)
        o.fields.update(n=n + 1, at=lambda j: Ite(j == n, i, at(j)), w=Ite(MT(i, E.ghost["tt"]), n, w))
    return f
def pc_obj(E, i): return E.new(M, "Partial_Config", id=i, state=CS(i))
def pcs_havoc(E, o, f):
    if f == "at": g = E.func("at", I, I); o.fields["at"] = lambda j: g(j)
    else: o.fields[f] = E.int(f)
    return True
EX.update({("PCs", "attr"): pcs_attr, ("PCs", "iter"): lambda E, o: (zi(o.fields["n"]), lambda k: pc_obj(E, o.fields["at"](zi(k)))), ("PCs", "len"): lambda E, o: zi(o.fields["n"]), ("PCs", "havoc"): pcs_havoc})
def found(o, t): w = o.fields["w"]; return And(0 <= w, w < zi(o.fields["n"]), MT(o.fields["at"](w), t))
class Single(Contract):
    """success only if the run never reaches the halting cell: assume it does, at time T"""
    module = M; qualname = "backtrack_single_halt"; params = ["halt_state", "halt_symbol", "to_state", "dir_to_symbol", "steps", "max_width_allowed"]; feas_ms = 200
    def args(self, E):
        g = E.ghost; ns, nk = E.int("ns"), E.int("nk"); S = R.lol(E, ns, False); X = d2_new(E); T = E.int("T"); g.update(ns=ns, nk=nk, T=T, d2=X, S=S, tt=T); h, y = E.int("h"), E.int("y")
        # the run is at (h, y) at time T, all steps before were running ones, so their transitions are listed
        E.assume([T >= 0, St(T) == h, rd(T) == y, ns >= 1]); E.assume(Forall([I], lambda t: Implies(And(0 <= t, t < T), And(R.covered(S, St(t + 1), St(t), rd(t)), 0 <= St(t + 1), St(t + 1) < ns, N(St(t), rd(t)) == St(t + 1))), patterns=lambda t: [St(t)]))
        E.assume(Forall([I], lambda i: S.fields["len"](i) >= 0)); E.assume(And(0 <= h, h < ns))
        # a matching configuration is in the run's state
        E.assume(Forall([I, I], lambda i, t: Implies(MT(i, t), CS(i) == St(t)), patterns=lambda i, t: [MT(i, t)]))
        st = E.int("steps"); E.assume(st >= 1)
        return NS(halt_state=h, halt_symbol=y, to_state=S, dir_to_symbol=X, steps=st, max_width_allowed=E.int("max_width_allowed"))
    def loops(self):
        def cur(env): o = env.pos_configs; return o if isinstance(o, Obj) else None
        def conv(E, env):
            for n, v in list(env.fr.locals.items()):
                if isinstance(v, PyList) and (v.items or n == "prev_configs"): env.fr.locals[n] = to_pcs(E, v)
        def inv1(E, env):
            T = E.ghost["T"]; i = zi(env.extra["k"]); o = cur(env)
            if o is None: raise Unsupported("pos_configs")
            return [("a configuration of the run is still among the candidates", And(i < T, zi(o.fields["n"]) >= 0, found(o, T - i)))]
        def head1(E, env):
            T = E.ghost["T"]; i = zi(env.extra["k"]); tt = T - i - 1; E.ghost.update(tt=tt, cur=cur(env)); S = E.ghost["S"]
            E.assume(Implies(And(0 <= tt, tt < T), And(R.covered(S, St(tt + 1), St(tt), rd(tt)), N(St(tt), rd(tt)) == St(tt + 1)))); E.assume([tt + 1 == T - i])
        def inv2(E, env):
            p = env.prev_configs; o = E.ghost["cur"]; k = zi(env.extra["k"]); return [("the predecessor of the candidate is found", Implies(k > o.fields["w"], And(found(p, E.ghost["tt"])))), ("length", zi(p.fields["n"]) >= 0), ("the start would have been recognised", Implies(k > o.fields["w"], E.ghost["tt"] >= 1))]
        def head2(E, env): E.ghost["k2"] = zi(env.extra["k"])
        def inv3(E, env):
            p = env.prev_configs; o = E.ghost["cur"]; k = zi(env.extra["k"]); k2 = E.ghost["k2"]; tt = E.ghost["tt"]; S = E.ghost["S"].fields
            ok = Or(k2 > o.fields["w"], And(k2 == o.fields["w"], k > S["idx"](St(tt), rd(tt)))); return [("the predecessor of the candidate is found", Implies(ok, found(p, tt))), ("length", zi(p.fields["n"]) >= 0), ("the start would have been recognised", Implies(ok, tt >= 1))]
        def fr(E, f): return [(v, x) for v in [f.locals.get("prev_configs")] if isinstance(v, Obj) for x in ("n", "at", "w")]
        def hv(E, fr, n):
            v = fr.locals[n]
            if isinstance(v, Obj) and v.cls == "PCs": return pcs(E)
            if isinstance(v, PyList): return pcs(E)
            if isinstance(v, (Obj, tuple, Opaque)) or is_zbool(v): return Opaque("loop variable")
            return MISSING
        hv2 = lambda E, fr, n: fr.locals[n] if isinstance(fr.locals[n], Obj) and fr.locals[n].cls == "PCs" else hv(E, fr, n)
        return [Loop("steps", inv1, pre=conv, head=head1, havoc_local=hv, bind_unbound=lambda E, fr, n, k: E.int(n) if n == "i" else MISSING), Loop("candidates", inv2, pre=conv, head=head2, frame=fr, havoc_local=hv2), Loop("transitions", inv3, frame=fr, havoc_local=hv2)]
    def post(self, E, old, a, r):
        if not isinstance(r, Obj): raise Unsupported("result")
        return [("no success if the run reaches the cell", Not(zb(E.truth(r.fields["success"]))))]
    def apply_call(self, E, f, argv):
        h, y, S, X = argv[:4]; g = E.ghost; E.prove("call backtrack_single_halt: lists of this machine", S is g["S"] and X is g["d2"]); s = E.bool("success"); E.assume(Implies(s, NR(zi(h), zi(y)))); return E.new(M, "BacktrackResult", success=s, halted=E.bool("halted"), max_steps=E.int("max_steps"), max_width=E.int("max_width"), num_nodes=E.int("num_nodes"))
class TTab(Contract):
    """success only if no halting cell is ever reached"""
    module = M; qualname = "backtrack_ttable"; params = ["TTable", "steps", "max_width"]
    def args(self, E): t = btable(E); E.ghost["table"] = t; return NS(TTable=t, steps=E.int("steps"), max_width=E.int("max_width"))
    def loops(self):
        def res(E, env): return [v for v in env.fr.locals.values() if isinstance(v, Obj) and getattr(v.cls, "name", "") == "BacktrackResult"]
        def inv(E, env):
            c = env.combined_result; H = E.ghost["H"].fields; k = zi(env.extra["k"]); Z = z3.IntVal(0)
            if not isinstance(c, Obj): raise Unsupported("combined result")
            return [("success so far only if no halt so far is reached", And(zb(E.truth(c.fields["success"])), Forall([I], lambda j: Implies(And(0 <= j, j < k), NR(H["q"](Z, j), H["s"](Z, j))), patterns=lambda j: [H["q"](Z, j)]).as_z3(E)))]
        def hv(E, fr, n):
            v = fr.locals[n]
            if isinstance(v, Obj) and n == "combined_result": return v
            return Opaque("loop variable") if isinstance(v, (Obj, tuple, Opaque)) else MISSING
        def hh(E, fr, o, f):
            if f in ("success", "halted"): o.fields[f] = E.bool(f); return True
            return False
        def fr(E, f): c = f.locals.get("combined_result"); return [(c, x) for x in c.fields] if isinstance(c, Obj) else []
        return [Loop("halts", inv, havoc_local=hv, havoc_heap=hh, frame=fr), Loop("self loops", lambda E, env: [], havoc_local=hv)]
    def post(self, E, old, a, r):
        if not isinstance(r, Obj): raise Unsupported("result")
        g = E.ghost; return [("success only if no halting cell is ever reached", Implies(zb(E.truth(r.fields["success"])), Forall([I, I], lambda q, s: Implies(And(0 <= q, q < g["ns"], 0 <= s, s < g["nk"], N(q, s) == -1), NR(q, s)), patterns=lambda q, s: [N(q, s)]).as_z3(E)))]
def loud(self, E, old, a, ex): return []      # an exception is no verdict
Single.raises = TTab.raises = loud
for c in (GetInfo, Single, TTab, IsInit, IsPossible): c.exts = EX
CONTRACTS = [PInit(), Applies(), ApplyTrans(), IsInit(), IsPossible(), GetInfo(), Single(), TTab()]
LEMMAS = ["Sides"]
