"""Contracts of the closed-position-set decider CPS.py (C11).

A windowed configuration is (state, direction, window, position); windows and
blocks are words.  Word level: get_block, shift_front and the constructor are
proved on the symbols of the words.  Above it words are values W with LEN and AT
and the slices/concatenations SL and CT.  EX(q,d,w,p): a run inside the window
leaves it, with results OQ, OD, OW (as proved for sim_limited, C03); RP: it
repeats forever.  The postcondition of run() is closure, for one arbitrary
configuration and one arbitrary continuation; the lemma Cover turns closure into
an invariant of the real tape."""
import ast, z3
from pyvc.engine import *
from pyvc.contract import *
M = "CPS"; TMM = "Macro.Turing_Machine"; I = z3.IntSort(); B = z3.BoolSort()
LEN = z3.Function("len", I, I); AT = z3.Function("at", I, I, I); SL = z3.Function("slice", I, I, I, I); CT = z3.Function("concat", I, I, I)
K4 = [I] * 4
EX, RP = z3.Function("leaves", *K4, B), z3.Function("repeats_forever", *K4, B); OQ, OD, OW = [z3.Function("out_" + x, *K4, I) for x in ("state", "dir", "window")]
RUN, INF, BAD = 0, 1, 2
CODES = {"Running": RUN, "Inf_Repeat": INF}
# ---- word level ------------------------------------------------------------------------
def seq(E, nm): f = E.func(nm, I, I); n = E.int(nm + "_n"); E.assume(n >= 0); return SymSeq(E, lambda i: f(i), n, "tuple")
def sl(E, x): return zi(x.length) if isinstance(x, SymSeq) else z3.IntVal(len(x.items if isinstance(x, PyList) else x))
def sg(E, x, i):
    if isinstance(x, (SymSeq, PyList, tuple)):
        g = E.getter(x); return zi(g(i)) if g else z3.IntVal(0)
    raise Unsupported("word %r" % (x,))
def same(E, lab, r, n, f): return [(lab + ": length", sl(E, r) == n), (lab + ": symbols", Forall([I], lambda i: Implies(And(0 <= i, i < n), sg(E, r, i) == f(i))))]
def canon(d, n, b): return Ite(zi(d) == 0, b - 1, n - b)
def config(E, **k):
    b = E.int("b"); w = seq(E, "window"); E.assume([b >= 1, w.length >= 2 * b]); d = E.case(0, 1); return E.new(M, "Config", state=E.int("state"), dir=d, window=w, block_size=b, pos=E.int("pos"), **k)
class CInit(Contract):
    module = M; qualname = "Config.__init__"; params = ["self", "state", "dir", "window", "block_size", "pos"]; inline = True
    def args(self, E): c = config(E); F = c.fields; return NS(self=E.new(M, "Config"), state=F["state"], dir=F["dir"], window=F["window"], block_size=F["block_size"], pos=E.case(None, E.int("pos")))
    def modifies(self, E, a): return [(a.self, None)]
    def post(self, E, old, a, r):
        F = a.self.fields; g = lambda k: F[k] if k in F else (_ for _ in ()).throw(Unsupported("field " + k)); n = zi(a.window.length)
        return [("state, direction and block size", And(zi(g("state")) == a.state, zi(g("dir")) == a.dir, zi(g("block_size")) == a.block_size)), ("position", zi(g("pos")) == (canon(a.dir, n, a.block_size) if a.pos is None else a.pos))] + same(E, "window", g("window"), n, lambda i: zi(a.window.get(i)))
class GetBlock(Contract):
    module = M; qualname = "Config.get_block"; params = ["self", "dir", "index"]
    def args(self, E): c = config(E); i = E.case(0, 1); return NS(self=c, dir=E.case(0, 1), index=i)
    def post(self, E, old, a, r):
        F = a.self.fields; w, b = F["window"], F["block_size"]; n = zi(w.length); i = a.index; lo = i * b if a.dir == 0 else n - (i + 1) * b
        return same(E, "block", r, b, lambda j: zi(w.get(lo + j)))
    def apply_call(self, E, f, argv):
        c, d, i = argv
        if not isinstance(i, int): raise Unsupported("block index")
        w, b = wid(c.fields["window"]), zi(c.fields["block_size"]); E.prove("call get_block: the block lies in the window", And((i + 1) * b <= LEN(w), i >= 0)); return word(E, block(w, b, d, i))
def block(w, b, d, i):
    n = LEN(w); left = SL(w, i * b, (i + 1) * b); right = SL(w, n - (i + 1) * b, n - i * b)
    if isinstance(d, int): return left if d == 0 else right
    return Ite(zi(d) == 0, left, right)
class Shift(Contract):
    module = M; qualname = "Config.shift_front"; params = ["self", "new_front"]
    def args(self, E): c = config(E); f = seq(E, "front"); E.assume(f.length == c.fields["block_size"]); return NS(self=c, new_front=f)
    def post(self, E, old, a, r):
        if not (isinstance(r, Obj) and "window" in r.fields): return [("a configuration", False)]
        F, G = a.self.fields, r.fields; w, b, f = F["window"], F["block_size"], a.new_front; n = zi(w.length)
        return [("state, direction and block size", And(zi(G["state"]) == F["state"], zi(G["dir"]) == F["dir"], zi(G["block_size"]) == b)), ("position", zi(G["pos"]) == canon(F["dir"], n, b))] + \
            same(E, "window", G["window"], n, (lambda i: Ite(i < b, zi(f.get(i)), zi(w.get(i - b)))) if F["dir"] == 0 else (lambda i: Ite(i < n - b, zi(w.get(i + b)), zi(f.get(i - (n - b))))))
    def apply_call(self, E, f, argv):
        c, nf = argv; F = c.fields; w, b, d = wid(F["window"]), zi(F["block_size"]), zi(F["dir"]); E.prove("call shift_front: a block in front", LEN(wid(nf)) == b)
        E.prove("call shift_front: window of at least two blocks", LEN(w) >= 2 * b); E.assume(LEN(shifted(w, b, d, wid(nf))) == LEN(w)); return E.new(M, "Config", state=F["state"], dir=F["dir"], window=word(E, shifted(w, b, d, wid(nf))), block_size=F["block_size"], pos=canon(d, LEN(w), b))
def shifted(w, b, d, f): return Ite(zi(d) == 0, CT(f, SL(w, 0, LEN(w) - b)), CT(SL(w, b, LEN(w)), f))
class Eq(Contract):
    module = M; qualname = "Config.__eq__"; params = ["self", "other"]
    def args(self, E):
        b, n = E.int("b"), E.int("n"); E.assume([b >= 1, n >= 2 * b]); mk = lambda i: (lambda d, w: (E.assume([LEN(w) == n, d >= 0, d <= 1]), E.new(M, "Config", state=E.int("state%d" % i), dir=d, window=word(E, w), block_size=b, pos=canon(d, n, b)))[1])(E.int("dir%d" % i), E.int("w%d" % i)); return NS(self=mk(0), other=mk(1))
    exts = {("Word", "eq"): lambda E, a, b: wid(a) == wid(b) if isinstance(a, Obj) and isinstance(b, Obj) and a.cls == b.cls == "Word" else False}
    def post(self, E, old, a, r): F, G = a.self.fields, a.other.fields; return [("equal only if state, direction and window are", Implies(zb(E.truth(r)), And(F["state"] == G["state"], F["dir"] == G["dir"], wid(F["window"]) == wid(G["window"]), F["pos"] == G["pos"])))]
# ---- values ------------------------------------------------------------------------------
def word(E, w): return Obj(E, "Word", {"w": zi(w)})
def wid(o):
    if not (isinstance(o, Obj) and o.cls == "Word"): raise Unsupported("word %r" % (o,))
    return o.fields["w"]
def key(c):
    if not (isinstance(c, Obj) and "window" in c.fields): raise Unsupported("configuration %r" % (c,))
    F = c.fields; return zi(F["state"]), zi(F["dir"]), wid(F["window"]), zi(F["pos"])
def sameq(x, y): return And(*[a == b for a, b in zip(x, y)])
def cset(E, has=None):
    o = Obj(E, "CSet", {"has": has}); 
    if has is None: cset_havoc(E, o, "has")
    return o
def cset_havoc(E, o, f): h = E.func("in_set", *K4, B); o.fields["has"] = lambda *k: h(*k); return True
def cset_attr(E, o, n):
    if n == "add":
        def add(E, c): k, h = key(c), o.fields["has"]; E.note_write("field", o, "has"); o.fields["has"] = lambda *x: Or(sameq(x, k), h(*x))
        return add
    return MISSING
def cset_truth(E, o): b = E.bool("nonempty"); h = o.fields["has"]; E.assume(Forall(K4, lambda *k: Implies(Not(b), Not(h(*k))), patterns=lambda *k: [h(*k)] if plain(h(*k)) else None)); return b
def plain(t): return is_z(t) and z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED
def keyfacts(E, k):
    q, d, w, p = k; g = E.ghost; return And(d >= 0, d <= 1, LEN(w) == g["W"], p == canon(d, g["W"], g["b"]))
def cset_iter(E, o):
    n = E.int("set_size"); ix = E.func("index_in_set", *K4, I); fs = [E.func("element_" + x, I, I) for x in "qdwp"]; h = o.fields["has"]; E.assume(n >= 0); el = lambda k: tuple(f(k) for f in fs)
    for k in (E.ghost["S"], E.ghost["K"]): E.assume(Implies(h(*k), And(0 <= ix(*k), ix(*k) < n, sameq(el(ix(*k)), k))))
    E.ghost["ix"] = ix; E.ghost["iterhas"] = h
    def at(k):
        k = zi(k); e = el(k); E.assume(Implies(And(0 <= k, k < n), And(h(*e), ix(*e) == k))); E.assume(keyfacts(E, e)); return E.new(M, "Config", state=e[0], dir=e[1], window=word(E, e[2]), block_size=E.ghost["b"], pos=e[3])
    return n, at
def tmap(E):
    o = Obj(E, "TMap", {}); tm_havoc(E, o, "has"); tm_havoc(E, o, "cond"); return o
def tm_havoc(E, o, f):
    h = E.func("t_" + f, *K4, B if f == "has" else I); o.fields[f] = lambda *k: h(*k); return True
def tm_set(E, o, k, v):
    k = key(k); E.prove("the key is a configuration of this window size", keyfacts(E, k))
    if not (isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], Obj)): raise Unsupported("stored value")
    T, C = v; c = CODES.get(T.fields["condition"], BAD)
    if c == RUN:
        if not isinstance(C, Obj): E.prove("a running result stores its configuration", False); return True
        q = key(C)[:3]; b = C.fields["block_size"]; E.prove("the stored result is that of the run inside the window", And(EX(*k), zi(T.fields["dir_out"]) == OD(*k), q[0] == OQ(*k), q[1] == OD(*k), q[2] == OW(*k), zi(b) == E.ghost["b"]))
    if c == INF: E.prove("the window run repeats forever", RP(*k))
    h, cd = o.fields["has"], o.fields["cond"]; E.note_write("field", o, "has"); E.note_write("field", o, "cond"); o.fields.update(has=lambda *x: Or(sameq(x, k), h(*x)), cond=lambda *x: Ite(sameq(x, k), z3.IntVal(c), cd(*x))); return True
def outfacts(E, k): return And(OD(*k) >= 0, OD(*k) <= 1, LEN(OW(*k)) == LEN(k[2]))
def tm_get(E, o, k):
    k = key(k); E.prove("the key is stored", o.fields["has"](*k)); cd = o.fields["cond"](*k); name = {RUN: "Running", INF: "Inf_Repeat", BAD: "Halt"}[RUN if E.branch(cd == RUN) else INF if E.branch(cd == INF) else BAD]
    T = E.new(TMM, "Transition", condition=name, condition_details=Opaque("details"), symbol_out=word(E, OW(*k)), state_out=OQ(*k), dir_out=OD(*k), num_base_steps=E.int("steps"), states_last_seen=Opaque("seen")); C = None
    if name == "Running": E.assume([EX(*k), outfacts(E, k)]); T.fields["dir_out"] = 0 if E.branch(OD(*k) == 0) else 1; E.assume(OD(*k) == T.fields["dir_out"]); C = E.new(M, "Config", state=OQ(*k), dir=OD(*k), window=word(E, OW(*k)), block_size=E.ghost["b"], pos=E.int("pos_outside"))
    return (T, C)
def tm_attr(E, o, n):
    if n == "keys": return lambda E: cset(E, o.fields["has"])
    return MISSING
def conts(E): o = Obj(E, "Conts", {}); ct_havoc(E, o, "edge"); return o
def ct_havoc(E, o, f): e = E.func("edge", I, I, I, B); o.fields["edge"] = lambda *x: e(*x); return True
def ct_get(E, o, d): return Obj(E, "ContD", {"o": o, "d": zi(d)})
def cd_get(E, o, s): return Obj(E, "BSet", dict(o.fields, s=wid(s)))
def bs_contains(E, o, x): F = o.fields; return F["o"].fields["edge"](F["d"], F["s"], wid(x))
def bs_attr(E, o, n):
    if n == "add":
        def add(E, x):
            F = o.fields; c = F["o"]; e = c.fields["edge"]; d, s, y = F["d"], F["s"], wid(x); E.note_write("field", c, "edge"); c.fields["edge"] = lambda a, b, z: Or(And(a == d, b == s, z == y), e(a, b, z))
        return add
    return MISSING
def bs_iter(E, o):
    F = o.fields; e = F["o"].fields["edge"]; d, s = F["d"], F["s"]; n = E.int("set_size"); ix, el = E.func("index_of_block", I, I), E.func("block_at", I, I); E.assume(n >= 0)
    for y in (E.ghost["dst"], E.ghost["nf"]): E.assume(Implies(e(d, s, y), And(0 <= ix(y), ix(y) < n, el(ix(y)) == y)))
    E.ghost["bix"] = ix; E.ghost["bset"] = (d, s); E.ghost["bin"] = lambda y: e(d, s, y)
    def at(k): k = zi(k); E.assume(Implies(And(0 <= k, k < n), And(e(d, s, el(k)), LEN(el(k)) == E.ghost["b"]))); return word(E, el(k))
    return n, at
def b_tuple(E, a, kw):
    if a and isinstance(a[0], Obj) and a[0].cls == "Word": return a[0]
    return MISSING
def b_set(E, a, kw): return cset(E, lambda *k: z3.BoolVal(False)) if not a else b_copy(E, a, kw)
def b_copy(E, a, kw): return cset(E, a[0].fields["has"]) if a and isinstance(a[0], Obj) and a[0].cls in ("CSet", "TMap") else MISSING
EXT = {("CSet", "attr"): cset_attr, ("CSet", "truth"): cset_truth, ("CSet", "iter"): cset_iter, ("CSet", "contains"): lambda E, o, c: o.fields["has"](*key(c)), ("CSet", "havoc"): cset_havoc,
       ("TMap", "getitem"): tm_get, ("TMap", "setitem"): tm_set, ("TMap", "contains"): lambda E, o, c: o.fields["has"](*key(c)), ("TMap", "attr"): tm_attr, ("TMap", "havoc"): tm_havoc,
       ("Conts", "getitem"): ct_get, ("Conts", "havoc"): ct_havoc, ("ContD", "getitem"): cd_get, ("BSet", "contains"): bs_contains, ("BSet", "attr"): bs_attr, ("BSet", "iter"): bs_iter,
       ("builtin", "tuple"): b_tuple, ("builtin", "set"): b_set, ("builtin", "frozenset"): b_copy, ("builtin", "list"): b_copy, ("Word", "len"): lambda E, o: LEN(wid(o)),
       ("Word", "eq"): lambda E, a, b: wid(a) == wid(b) if isinstance(a, Obj) and isinstance(b, Obj) and a.cls == b.cls == "Word" else False}
RES = ("num_iters", "num_steps", "num_configs", "num_edges")
def sim(E):
    b, W = E.int("b"), E.int("W"); E.assume([b >= 1, W >= 2 * b]); res = Obj(E, "Result", {x: E.int(x) for x in RES}); res.fields.update(success=E.bool("success"), found_inf_loop=E.bool("found_inf"))
    o = E.new(M, "ClosedGraphSim", tm=Obj(E, "AbsTM", {}), block_size=b, window_size=W, result=res, max_steps=E.int("max_steps"), max_iters=E.int("max_iters"), max_configs=E.int("max_configs"), max_edges=E.int("max_edges"), todo_configs=cset(E), transitions=tmap(E), continuations=conts(E))
    K, S = [tuple(E.int(nm + x) for x in "qdwp") for nm in ("K_", "S_")]; E.ghost.update(b=b, W=W, K=K, S=S, dst=E.int("dst"), nf=E.int("new_front")); E.assume([keyfacts(E, K), keyfacts(E, S), LEN(E.ghost["dst"]) == b, LEN(E.ghost["nf"]) == b])
    E.assume(Implies(EX(*K), outfacts(E, K))); return o
def st(o): return NS(todo=o.fields["todo_configs"].fields["has"], T=o.fields["transitions"].fields["has"], cond=o.fields["transitions"].fields["cond"], edge=o.fields["continuations"].fields["edge"])
def closed(E, k, s, dst, nf, after=None):
    """closure of a set s at key k for the continuations dst (behind) and nf (in front); `after` is the grown set"""
    a = after or s; b = E.ghost["b"]; D = OD(*k); beh = 1 - D; w, nw = k[2], OW(*k); f, sec = block(nw, b, beh, 0), block(nw, b, beh, 1); n = (OQ(*k), D, shifted(nw, b, D, nf), canon(D, LEN(nw), b))
    return [("the blocks left behind are linked", a.edge(beh, sec, f)), ("the block left behind inherits the continuations of the one it replaces", Implies(s.edge(beh, block(w, b, beh, 0), dst), a.edge(beh, f, dst))),
            ("every continuation in front gives a stored configuration", Implies(s.edge(D, block(w, b, D, 0), nf), Or(a.T(*n), a.todo(*n))))]
def stored(E, k, a, nf): b = E.ghost["b"]; D, nw = OD(*k), OW(*k); n = (OQ(*k), D, shifted(nw, b, D, nf), canon(D, LEN(nw), b)); return Or(a.T(*n), a.todo(*n))
def grows(E, s, a):
    edge = lambda x: Forall([I] * 3, lambda d, u, v: Implies(s.edge(d, u, v), a.edge(d, u, v)), patterns=lambda d, u, v: [s.edge(d, u, v)] if plain(s.edge(d, u, v)) else None)
    return [("no continuation is lost", edge(0)), ("no configuration is lost", Forall(K4, lambda *k: Implies(Or(s.T(*k), s.todo(*k)), Or(a.T(*k), a.todo(*k))), patterns=lambda *k: [s.todo(*k)] if plain(s.todo(*k)) else None))]
def same_st(E, s, a): return [("continuations unchanged", Forall([I] * 3, lambda d, u, v: s.edge(d, u, v) == a.edge(d, u, v), patterns=lambda d, u, v: [a.edge(d, u, v)] if plain(a.edge(d, u, v)) else None)), ("configurations unchanged", Forall(K4, lambda *k: s.todo(*k) == a.todo(*k), patterns=lambda *k: [a.todo(*k)] if plain(a.todo(*k)) else None))]
def imp(c, xs):
    out = []
    for l, x in xs: out.append((l, Forall(x.sorts, lambda *a, x=x: Implies(c, x.body(*a)), patterns=x.patterns) if isinstance(x, Forall) else Implies(c, x)))
    return out
class Method(Contract):
    module = M; exts = EXT; feas_ms = 100
    def setup(self, E):
        for k in [(M, "Config.__init__")]: E.contracts.pop(k, None)
    def old(self, E, a): return st(a.self)
    def simobj(self, a):
        o = a.self
        if not (isinstance(o, Obj) and isinstance(o.fields.get("todo_configs"), Obj)): raise Unsupported("representation")
        return o
class AddEdge(Method):
    qualname = "ClosedGraphSim.add_edge"; params = ["self", "dir", "src", "dst"]
    def args(self, E): o = sim(E); d = E.int("d"); return NS(self=o, dir=d, src=word(E, E.int("src")), dst=word(E, E.int("y")))
    def modifies(self, E, a): return [(a.self.fields["continuations"], "edge"), (a.self.fields["result"], "num_edges")]
    def result(self, E, a, old): return E.bool("edge_added")
    def post(self, E, old, a, r):
        n = st(self.simobj(a)); d, s, y = zi(a.dir), wid(a.src), wid(a.dst); r = zb(E.truth(r)); return [("exactly this continuation is added", Forall([I] * 3, lambda u, v, w: n.edge(u, v, w) == Or(And(u == d, v == s, w == y), old.edge(u, v, w)), patterns=lambda u, v, w: [n.edge(u, v, w)] if plain(n.edge(u, v, w)) else None)), ("False only if it was there", Implies(Not(r), old.edge(d, s, y)))]
class AddConfig(Method):
    qualname = "ClosedGraphSim.add_config"; params = ["self", "config"]
    def args(self, E): o = sim(E); k = tuple(E.int("c_" + x) for x in "qdwp"); E.assume(keyfacts(E, k)); return NS(self=o, config=E.new(M, "Config", state=k[0], dir=k[1], window=word(E, k[2]), block_size=E.ghost["b"], pos=k[3]))
    def pre(self, E, a): return [("a configuration of this window size", keyfacts(E, key(a.config)))]
    def modifies(self, E, a): return [(a.self.fields["todo_configs"], "has"), (a.self.fields["result"], "num_configs")]
    def result(self, E, a, old): return E.bool("config_added")
    def post(self, E, old, a, r):
        n = st(self.simobj(a)); k = key(a.config); r = zb(E.truth(r)); pt = lambda *x: [n.todo(*x)] if plain(n.todo(*x)) else None
        return [("the configuration is stored", Or(n.T(*k), n.todo(*k))), ("nothing is lost", Forall(K4, lambda *x: Implies(old.todo(*x), n.todo(*x)), patterns=lambda *x: [old.todo(*x)] if plain(old.todo(*x)) else None)), ("nothing else is added", Forall(K4, lambda *x: Implies(And(n.todo(*x), Not(sameq(x, k))), old.todo(*x)), patterns=pt)), ("False only if it was there", Implies(Not(r), And(Or(old.T(*k), old.todo(*k)), n.todo(*k) == old.todo(*k))))]
class UpdateSet(Method):
    qualname = "ClosedGraphSim.update_set"; params = ["self", "old_config"]; budget_s = 300
    def args(self, E): o = sim(E); k = E.ghost["K"]; return NS(self=o, old_config=E.new(M, "Config", state=k[0], dir=k[1], window=word(E, k[2]), block_size=E.ghost["b"], pos=k[3]))
    def pre(self, E, a): s = st(self.simobj(a)); k = key(a.old_config); return [("the configuration was evaluated", s.T(*k)), ("of this window size", keyfacts(E, k))]
    def modifies(self, E, a): F = a.self.fields; return [(F["continuations"], "edge"), (F["todo_configs"], "has"), (F["result"], "num_edges"), (F["result"], "num_configs")]
    def result(self, E, a, old): return E.bool("modified")
    def loops(self):
        def pre(E, env): E.ghost["snap"] = st(E.ghost["sim"])
        def inv(E, env):
            g = E.ghost; n = st(g["sim"]); K, b = g["K"], g["b"]; k = zi(env.extra["k"]); flag = zb(E.truth(env.was_modified)); d, s = g["bset"]; D = OD(*K); beh = 1 - D; c = closed(E, K, g["st0"], g["dst"], g["nf"], n)
            return grows(E, g["snap"], n) + grows(E, g["st0"], n) + imp(Not(flag), same_st(E, g["st0"], n)) + [("continuations copied so far", Implies(And(d == beh, s == block(K[2], b, beh, 0), g["bin"](g["dst"]), g["bix"](g["dst"]) < k), n.edge(beh, block(OW(*K), b, beh, 0), g["dst"]))),
                ("configurations added so far", Implies(And(d == D, s == block(K[2], b, D, 0), g["bin"](g["nf"]), g["bix"](g["nf"]) < k), stored(E, K, n, g["nf"])))]
        def frame(E, f): F = E.ghost["sim"].fields; return [(F["continuations"], "edge"), (F["todo_configs"], "has"), (F["result"], "num_edges"), (F["result"], "num_configs")]
        return [Loop("continuations %d" % i, inv, pre=pre, frame=frame) for i in (1, 2)]
    def old(self, E, a): s = st(a.self); E.ghost.update(sim=a.self, st0=s) if "sim" not in E.ghost else None; return s
    def post(self, E, old, a, r):
        n = st(self.simobj(a)); k = key(a.old_config); r = zb(E.truth(r)); g = E.ghost; out = grows(E, old, n) + imp(Not(r), same_st(E, old, n)); run = old.cond(*k) == RUN
        return out + imp(And(run, sameq(k, g["K"])), closed(E, g["K"], old, g["dst"], g["nf"], n))
class SimLim(Contract):
    module = TMM; qualname = "sim_limited"; params = ["tm", "state", "start_tape", "pos", "dir", "max_loops"]; assumed = True; why = "runs inside a window: verified for C03"
    def apply_call(self, E, f, argv):
        tm, q, w, p, d = argv[:5]; w = wid(w); k = (zi(q), zi(d), w, zi(p)); E.prove("call sim_limited: starts inside the window", And(0 <= zi(p), zi(p) < LEN(w))); E.prove("call sim_limited: of this machine", tm is E.ghost["sim"].fields["tm"])
        c = E.case("Running", "Inf_Repeat", "Halt", "Undefined", "Gave_Up"); T = E.new(TMM, "Transition", condition=c, condition_details=Opaque("details"), symbol_out=word(E, E.int("other")), state_out=E.int("other"), dir_out=E.int("other"), num_base_steps=E.int("steps"), states_last_seen=Opaque("seen"))
        if c == "Running": E.assume([EX(*k), outfacts(E, k)]); T.fields.update(symbol_out=word(E, OW(*k)), state_out=OQ(*k), dir_out=0 if E.branch(OD(*k) == 0) else 1); E.assume(OD(*k) == T.fields["dir_out"])
        if c == "Inf_Repeat": E.assume(RP(*k))
        return T
class SimConfig(Method):
    qualname = "ClosedGraphSim.sim_config"; params = ["self", "old_config"]
    args = UpdateSet.args; old = UpdateSet.old
    def pre(self, E, a): return [("of this window size", keyfacts(E, key(a.old_config)))]
    def modifies(self, E, a): F = a.self.fields; return [(F["transitions"], "has"), (F["transitions"], "cond"), (F["result"], "num_steps"), (F["result"], "found_inf_loop")]
    def result(self, E, a, old): return E.case("Running", "Inf_Repeat", "Halt", "Undefined", "Gave_Up")
    def post(self, E, old, a, r):
        n = st(self.simobj(a)); k = key(a.old_config)
        if not isinstance(r, str): raise Unsupported("result")
        return [("the configuration is evaluated, nothing is lost or added", Forall(K4, lambda *x: n.T(*x) == Or(sameq(x, k), old.T(*x)), patterns=lambda *x: [n.T(*x)] if plain(n.T(*x)) else None)), ("how it ended is recorded", n.cond(*k) == CODES.get(r, BAD)), ("other results are kept", Forall(K4, lambda *x: Implies(Not(sameq(x, k)), n.cond(*x) == old.cond(*x)), patterns=lambda *x: [n.cond(*x)] if plain(n.cond(*x)) else None))]
class Run(Method):
    """success only with a closed set that contains the start and no halting configuration"""
    qualname = "ClosedGraphSim.run"; params = ["self"]; budget_s = 400
    def args(self, E):
        o = sim(E); E.ghost["sim"] = o; return NS(self=o)
    def pre(self, E, a): s = st(a.self); return [("the start is in the set", Or(s.T(*E.ghost["S"]), s.todo(*E.ghost["S"]))), ("nothing halting was evaluated", fine(E, s))]
    def old(self, E, a): return NS()
    def modifies(self, E, a): F = a.self.fields; return [(F["continuations"], "edge"), (F["todo_configs"], "has"), (F["transitions"], "has"), (F["transitions"], "cond"), (F["result"], None), (a.self, "todo_configs")]
    def loops(self):
        def hv(E, fr, n):
            x = fr.locals[n]
            if isinstance(x, Obj) and x.cls == "CSet": return cset(E)
            if isinstance(x, (Obj, str, Opaque)): return Opaque("loop variable")
            return MISSING
        def frame(E, f): o = E.ghost["sim"]; F = o.fields; r = F["result"]; return [(F["continuations"], "edge"), (F["todo_configs"], "has"), (F["transitions"], "has"), (F["transitions"], "cond"), (o, "todo_configs")] + [(r, x) for x in r.fields]
        def hh(E, fr, o, f):
            if f == "todo_configs" and o is E.ghost["sim"]: o.fields[f] = cset(E); return True
            return False
        def inv(E, env): s = st(E.ghost["sim"]); return [("the start is in the set", Or(s.T(*E.ghost["S"]), s.todo(*E.ghost["S"]))), ("nothing halting was evaluated", fine(E, s))]
        def inv_new(E, env):
            s = st(E.ghost["sim"]); S = E.ghost["S"]; k = zi(env.extra["k"]); ix = E.ghost["ix"]; h = E.ghost["iterset"]; return [("the start is in the set or still to come", Or(s.T(*S), s.todo(*S), And(h(*S), ix(*S) >= k))), ("nothing halting was evaluated", fine(E, s))]
        def pre_new(E, env): E.ghost["snap"] = st(E.ghost["sim"]); E.ghost["iterset"] = E.ghost["iterhas"]
        def pre_old(E, env): E.ghost["snap"] = st(E.ghost["sim"])
        def inv_old(E, env):
            g = E.ghost; s, s0 = st(g["sim"]), g["snap"]; k = zi(env.extra["k"]); flag = zb(E.truth(env.was_modified)); K = g["K"]
            return inv(E, env) + [("evaluated configurations are kept", Forall(K4, lambda *x: s.T(*x) == s0.T(*x), patterns=lambda *x: [s.T(*x)] if plain(s.T(*x)) else None))] + imp(Not(flag), [("no configuration is waiting", Forall(K4, lambda *x: Not(s.todo(*x)), patterns=lambda *x: [s.todo(*x)] if plain(s.todo(*x)) else None))] + imp(And(s.T(*K), s.cond(*K) == RUN, g["ix"](*K) < k), closed(E, K, s, g["dst"], g["nf"])))
        isin = lambda kind: (lambda E, s, fr: isinstance(s, kind))
        return [Loop("outer", inv, havoc_local=hv, havoc_heap=hh, frame=frame, match=isin(ast.While), bind_unbound=lambda E, fr, n, k: MISSING), Loop("waiting", inv, havoc_local=hv, havoc_heap=hh, frame=frame, match=isin(ast.While), bind_unbound=lambda E, fr, n, k: MISSING),
                Loop("new ones", inv_new, pre=pre_new, havoc_local=hv, havoc_heap=hh, frame=frame, match=isin(ast.For)), Loop("again", inv_old, pre=pre_old, havoc_local=hv, havoc_heap=hh, frame=frame, match=isin(ast.For))]
    def post(self, E, old, a, r):
        g = E.ghost; s = st(self.simobj(a)); ok = a.self.fields["result"].fields["success"]
        if ok is False: return [("failure", True)]
        K = g["K"]; ok = zb(E.truth(ok)); return imp(ok, [("the start was evaluated", s.T(*g["S"])), ("every configuration in the set leaves the window or repeats forever", Implies(s.T(*K), And(Or(s.cond(*K) == RUN, s.cond(*K) == INF)))), ("no configuration is waiting", Not(s.todo(*K)))] + imp(And(s.T(*K), s.cond(*K) == RUN), closed(E, K, NS(T=s.T, todo=lambda *x: z3.BoolVal(False), edge=s.edge), g["dst"], g["nf"])))
def fine(E, s): return Forall(K4, lambda *x: Implies(s.T(*x), Or(s.cond(*x) == RUN, s.cond(*x) == INF)), patterns=lambda *x: [s.T(*x)] if plain(s.T(*x)) else None)
# ---- the start -----------------------------------------------------------------------------
def dd_new(E, *a): return Obj(E, "DD", {"pairs": []})
def rep_of(E, x):
    """(symbol, length) of a word made of one repeated symbol"""
    if isinstance(x, SymSeq): k = E.int("any_cell"); return zi(x.get(k)), zi(x.length)
    raise Unsupported("word %r" % (x,))
class GInit(Contract):
    """the first set: the blank window, and blank after blank on both sides"""
    module = M; qualname = "ClosedGraphSim.__init__"; params = ["self", "tm", "block_size", "window_size", "max_steps", "max_iters", "max_configs", "max_edges", "result"]
    exts = {("external", "collections.defaultdict"): dd_new, ("DD", "getitem"): lambda E, o, k: Obj(E, "DDS", {"o": o, "k": k}), ("DDS", "attr"): lambda E, o, n: (lambda E, v: o.fields["o"].fields["pairs"].append((o.fields["k"], v))) if n == "add" else MISSING}
    def args(self, E):
        b, W = E.int("b"), E.int("W"); E.assume([b >= 1, W >= 2 * b]); tm = Obj(E, "AbsTM", {"init_symbol": E.int("blank"), "init_state": E.int("init_state")}); return NS(self=E.new(M, "ClosedGraphSim"), tm=tm, block_size=b, window_size=W, max_steps=E.int("ms"), max_iters=E.int("mi"), max_configs=E.int("mc"), max_edges=E.int("me"), result=Obj(E, "Result", {}))
    def modifies(self, E, a): return [(a.self, None)]
    def post(self, E, old, a, r):
        F = a.self.fields; bl, b, W = a.tm.fields["init_symbol"], a.block_size, a.window_size; todo = F["todo_configs"]; T = F["transitions"]; C = F["continuations"]
        if not (isinstance(todo, PySet) and isinstance(T, PyDict) and isinstance(C, PyDict)): raise Unsupported("representation")
        out = [("nothing is evaluated yet", len(T.d) == 0), ("parameters", And(zi(F["block_size"]) == b, zi(F["window_size"]) == W, F["tm"] is a.tm, F["result"] is a.result))]
        ok = []
        for c in todo.items:
            G = c.fields; y, n = rep_of(E, G["window"]); ok.append(And(zi(G["state"]) == a.tm.fields["init_state"], Or(zi(G["dir"]) == 0, zi(G["dir"]) == 1), y == bl, n == W, zi(G["block_size"]) == b, zi(G["pos"]) == canon(G["dir"], W, b)))
        out.append(("the only configuration is the start on the blank window", And(len(ok) >= 1, *ok)))
        for d in (0, 1):
            o, D = E.dict_get(C, d)
            if not (o and isinstance(D, Obj) and D.cls == "DD"): raise Unsupported("continuations")
            c = []
            for s, t in D.fields["pairs"]: (y, n), (z, m) = rep_of(E, s), rep_of(E, t); c.append(And(y == bl, z == bl, n == b, m == b))
            out.append(("blank follows blank on side %d" % d, Or(*c) if c else False))
        return out
class Filter(Contract):
    """the machine is recorded as not halting only after a successful run on the set started for it"""
    module = M; qualname = "filter"; params = ["tm", "block_size", "window_size", "max_steps", "max_iters", "max_configs", "max_edges", "cg_result", "bb_status"]
    exts = {("Result2", "attr"): lambda E, o, n: (lambda E: None) if n == "Clear" else MISSING}
    def args(self, E):
        b, W = E.int("b"), E.int("W"); E.assume([b >= 1, W >= 2 * b]); return NS(tm=Obj(E, "AbsTM", {}), block_size=b, window_size=W, max_steps=E.int("ms"), max_iters=E.int("mi"), max_configs=E.int("mc"), max_edges=E.int("me"), cg_result=Obj(E, "Result2", {"success": E.bool("left over")}), bb_status=Obj(E, "Status", {}))
    def modifies(self, E, a): return [(a.cg_result, None)]
    def setup(self, E):
        def new(E, c, args, kw):
            v = dict(zip(GInit.params[1:], args)); v.update(kw); g = E.new(M, "ClosedGraphSim"); E.ghost["made"] = (g, v); return g
        class R(Contract):
            module = M; qualname = "ClosedGraphSim.run"; params = ["self"]
            def apply_call(s, E, f, argv): E.prove("run on the set just made", argv[0] is E.ghost["made"][0]); ok = E.bool("closed"); E.setfield(E.ghost["made"][1]["result"], "success", ok); E.ghost["ok"] = ok
        class H(Contract):
            module = "Halting_Lib"; qualname = "set_not_halting"; params = ["tm_status", "inf_reason"]
            def apply_call(s, E, f, argv): E.prove("recorded as not halting only after a closed set was found", E.ghost.get("ok", False)); E.prove("in the machine's status", argv[0] is E.ghost["a"].bb_status); E.ghost["rec"] = True
        E.exts[("new", "ClosedGraphSim")] = new; E.contracts[(M, "ClosedGraphSim.run")] = R(); E.contracts[("Halting_Lib", "set_not_halting")] = H()
    def old(self, E, a): E.ghost["a"] = a; return NS()
    def post(self, E, old, a, r):
        v = E.ghost["made"][1]; return [("the set is for this machine and these sizes", And(v["tm"] is a.tm, zi(v["block_size"]) == a.block_size, zi(v["window_size"]) == a.window_size, v["result"] is a.cg_result)), ("success is recorded", Implies(E.ghost["ok"], E.ghost.get("rec", False)))]
class Words(Lemma):
    """slices and concatenations used by Cover (words are equal when their lengths and symbols are)"""
    name = "the window moved by one block starts and ends with the right blocks"
    def obligations(self, E):
        b, n = E.int("b"), E.int("n"); w, f = E.func("window", I, I), E.func("front", I, I); i = E.int("i"); E.assume([b >= 1, n >= 2 * b, 0 <= i, i < b]); mr = lambda j: Ite(j < n - b, w(j + b), f(j - (n - b))); ml = lambda j: Ite(j < b, f(j), w(j - b))
        E.prove("right: the last block is the one in front", mr(n - b + i) == f(i)); E.prove("right: the first block is the second of the old window", mr(i) == w(b + i)); E.prove("left: the first block is the one in front", ml(i) == f(i)); E.prove("left: the last block is the second to last of the old window", ml(n - b + i) == w(n - 2 * b + i))
class Cover(Lemma):
    """a closed set that covers a configuration of the real tape covers the one when the window is left"""
    name = "closure covers the run"
    def obligations(self, E):
        b, W = E.int("b"), E.int("W"); E.assume([b >= 1, W >= 2 * b]); E.ghost.update(b=b, W=W); k = tuple(E.int("K_" + x) for x in "qdwp"); a = E.int("at"); X, Y = E.func("tape", I, I), E.func("tape_after", I, I); ch = [E.func("chain%d" % s, I, I) for s in (0, 1)]
        h = E.func("T", *K4, B); e = E.func("edge", I, I, I, B); w, nw = k[2], OW(*k); D = E.case(0, 1); S = NS(T=lambda *x: h(*x), todo=lambda *x: z3.BoolVal(False), edge=lambda *x: e(*x))
        E.assume([keyfacts(E, k), EX(*k), OD(*k) == D, LEN(nw) == W, h(*k)])
        # covered: window, chains of blocks on both sides with their links
        j, m, x = E.int("j"), E.int("m"), E.int("x"); E.assume([1 <= m, 0 <= j, j < b])
        first = lambda w, s: block(w, b, s, 0)
        pos = lambda a, s, m: a - m * b if s == 0 else a + W + (m - 1) * b
        for s in (0, 1):
            E.assume(e(s, first(w, s), ch[s](1)))
            for mm in (m, m + 1, m - 1, z3.IntVal(1)): E.assume(Implies(mm >= 1, And(e(s, ch[s](mm), ch[s](mm + 1)), LEN(ch[s](mm)) == b, AT(ch[s](mm), j) == X(pos(a, s, mm) + j))))
        E.assume(And(LEN(ch[0](1)) == b, LEN(ch[1](1)) == b))
        # what the run did: the window becomes nw, the rest is as before, the machine left on side D
        E.assume(Forall([I], lambda i: Implies(And(0 <= i, i < W), Y(a + i) == AT(nw, i)), patterns=lambda i: [AT(nw, i)])); E.assume(Forall([I], lambda y: Implies(Or(y < a, y >= a + W), Y(y) == X(y)), patterns=lambda y: [Y(y)]))
        nf = ch[D](1); oth = 1 - D; dst = ch[oth](1)
        for l, c in closed(E, k, S, dst, nf): E.assume(c)
        w2 = shifted(nw, b, z3.IntVal(D), nf); a2 = a - b if D == 0 else a + b; left_at = a - 1 if D == 0 else a + W
        # Words
        E.assume([LEN(w2) == W, first(w2, D) == nf, first(w2, oth) == block(nw, b, oth, 1)]); at = AT
        E.assume(Implies(And(0 <= x, x < W), AT(w2, x) == (Ite(x < b, AT(nf, x), AT(nw, x - b)) if D == 0 else Ite(x < W - b, AT(nw, x + b), AT(nf, x - (W - b))))))
        lo = 0 if oth == 0 else W - b; fb = block(nw, b, oth, 0); E.assume([LEN(fb) == b, AT(fb, j) == AT(nw, lo + j)])
        z = x if D == 0 else x - (W - b); E.assume(Implies(And(0 <= z, z < b), AT(nf, z) == X(pos(a, D, 1) + z)))
        c2 = lambda s, m: (ch[D](m + 1) if s == D else Ite(m == 1, fb, ch[oth](m - 1)))
        E.prove("the next configuration is in the set", h(OQ(*k), z3.IntVal(D), w2, canon(z3.IntVal(D), W, b))); E.prove("the head is where the configuration says", left_at == a2 + canon(z3.IntVal(D), W, b))
        E.prove("the new window is what is on the tape", Implies(And(0 <= x, x < W), AT(w2, x) == Y(a2 + x)))
        for s in (0, 1):
            E.prove("first link, side %d" % s, e(s, first(w2, s), c2(s, z3.IntVal(1)))); E.prove("further links, side %d" % s, e(s, c2(s, m), c2(s, m + 1)))
            E.prove("blocks on side %d are what is on the tape" % s, And(LEN(c2(s, m)) == b, AT(c2(s, m), j) == Y(pos(a2, s, m) + j)))
CONTRACTS = [CInit(), GetBlock(), Shift(), Eq(), AddEdge(), AddConfig(), UpdateSet(), SimConfig(), Run(), SimLim(), GInit(), Filter()]
LEMMAS = ["Words", "Cover"]
