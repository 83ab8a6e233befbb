"""Contracts of the machine encodings (C17): quintuples -> table, packed bytes,
list form, standard text, and the record that stores them."""
from .ttable import *
RM = "IO.TM_Record"
ROW = z3.Function("ROW", I, I, I); COL = z3.Function("COL", I, I, I)      # row-major position of cell j for nk columns
def grid_step(nk, j): return Ite(COL(nk, j) + 1 < nk, And(ROW(nk, j + 1) == ROW(nk, j), COL(nk, j + 1) == COL(nk, j) + 1), And(ROW(nk, j + 1) == ROW(nk, j) + 1, COL(nk, j + 1) == 0))
def grid_base(nk): return And(ROW(nk, 0) == 0, COL(nk, 0) == 0)
def grid_fact(nk, j): return Implies(And(nk >= 1, j >= 0), And(ROW(nk, j) >= 0, COL(nk, j) >= 0, COL(nk, j) < nk, ROW(nk, j) * nk + COL(nk, j) == j))
def grid_mul(E, q, n, nk): E.prove("arithmetic: rows do not overlap", Implies(And(q < n, nk >= 1), q * nk + nk <= n * nk)); 
class GridLemma(Lemma):
    name = "row-major numbering"
    def obligations(self, E):
        nk, j = E.int("nk"), E.int("j"); E.assume([nk >= 1, grid_base(nk)])
        E.prove("base", grid_fact(nk, z3.IntVal(0))); E.assume([j >= 0, grid_fact(nk, j), grid_step(nk, j)]); E.prove("step", grid_fact(nk, j + 1))
class MulLemma(Lemma):
    name = "row offset bound"
    def obligations(self, E):
        d, nk = E.int("d"), E.int("nk"); E.assume([nk >= 1, d >= 1]); E.prove("d*nk >= nk", d * nk >= nk)
def mulfact(q, n, nk): return Implies(And(q < n, nk >= 1), And(q * nk + nk <= n * nk, (n - q) * nk >= nk))     # instance of MulLemma with d = n - q

# ---- quintuples -> table --------------------------------------------------------
class QMap:
    def __init__(self, has, w, d, n): self.has, self.w, self.d, self.n = has, w, d, n
    def put(self, q, s, w, d, n):
        o = self; at = lambda a, b: And(a == q, b == s)
        return QMap(lambda a, b: Or(at(a, b), o.has(a, b)), lambda a, b: Ite(at(a, b), w, o.w(a, b)), lambda a, b: Ite(at(a, b), d, o.d(a, b)), lambda a, b: Ite(at(a, b), n, o.n(a, b)))
def qempty(): z = lambda a, b: z3.IntVal(0); return QMap(lambda a, b: False, z, z, z)
def qfresh(E):
    h = E.func("qhas", I, I, B); f = [E.func("q" + x, I, I, I) for x in "wdn"]
    return QMap(lambda a, b: h(a, b), *[(lambda f: (lambda a, b: f(a, b)))(x) for x in f])
def mk_quints(E): return Obj(E, "Quints", {"m": qempty()})
def quints_attr(E, o, name):
    if name == "append":
        def f(E, t):
            if not (isinstance(t, tuple) and len(t) == 5): raise Unsupported("quintuple %r" % (t,))
            q, s, w, d, n = [zi(x) for x in t]; E.setfield(o, "m", o.fields["m"].put(q, s, w, d, n))
        return f
    raise Unsupported("quints." + name)
def quints_havoc(E, o, f):
    if f == "m": o.fields["m"] = qfresh(E); return True
    return False
def abstract(make):
    """replace an empty list by its abstract counterpart before a cut loop"""
    def pre(E, env):
        for n, v in list(env.fr.locals.items()):
            if isinstance(v, PyList) and not v.items and v.kind == "list": env.fr.locals[n] = make(E)
    return pre
def find_local(env, cls):
    r = [v for v in env.fr.locals.values() if isinstance(v, Obj) and v.cls == cls]
    if len(r) != 1: raise Unsupported("expected one %s local" % cls)
    return r[0]
def cells_so_far(m, t, before):
    """the quintuples collected so far are the defined cells `before`"""
    return Forall([I, I], lambda q, s: And(m.has(q, s) == And(before(q, s), t.c(q, s) != UNDEF), Implies(m.has(q, s), And(m.w(q, s) == t.w(q, s), m.d(q, s) == t.d(q, s), m.n(q, s) == t.n(q, s)))), patterns=lambda q, s: [m.has(q, s)] if not isinstance(m.has(q, s), bool) and z3.is_app(m.has(q, s)) and m.has(q, s).decl().kind() == z3.Z3_OP_UNINTERPRETED else None)
def rng_len(E, s):
    if isinstance(s, SymSeq) and getattr(s, "rng", None) is not None and z3.is_true(z3.simplify(zi(s.rng[0]) == 0)) and s.rng[1] == 1: return zi(s.length)
    raise Unsupported("labels are not list(range(n))")

LASTQ = lambda E: E.func("last", I, I, I, I)
class TmFromQuints(Contract):
    """cell (q,s) is the last quintuple given for it, or undefined"""
    feas_ms = 120; module = TMM; qualname = "tm_from_quintuples"; params = ["quints", "states", "symbols"]
    def args(self, E):
        ns, nk, n = E.int("ns"), E.int("nk"), E.int("n"); E.assume([ns >= 1, nk >= 1, n >= 0]); f = [E.func("Q%d" % i, I, I) for i in range(5)]
        qs = Obj(E, "QSeq", {"n": n, "f": f}); E.ghost["last"] = LASTQ(E); E.assume(Forall([I, I], lambda a, b: E.ghost["last"](0, a, b) == -1))
        return NS(quints=qs, states=Obj(E, "Labels", {"n": ns}), symbols=Obj(E, "Labels", {"n": nk}))
    def rng(self, a, k):
        f = a.quints.fields["f"]; ns, nk = a.states.fields["n"], a.symbols.fields["n"]
        return And(0 <= f[0](k), f[0](k) < ns, 0 <= f[1](k), f[1](k) < nk, 0 <= f[2](k), f[2](k) < nk, -1 <= f[4](k), f[4](k) < ns)
    def pre(self, E, a):
        if a.quints.cls == "Quints":
            m = a.quints.fields["m"]; ns, nk = rng_len(E, a.states), rng_len(E, a.symbols)
            return [("cells and values are in range", Forall([I, I], lambda q, s: Implies(m.has(q, s), And(0 <= q, q < ns, 0 <= s, s < nk, 0 <= m.w(q, s), m.w(q, s) < nk, -1 <= m.n(q, s), m.n(q, s) < ns))))]
        return [("cells and values are in range", Forall([I], lambda k: Implies(And(0 <= k, k < a.quints.fields["n"]), self.rng(a, k)), patterns=lambda k: [a.quints.fields["f"][0](k)]))]
    def cell(self, E, a, T, L, k, q, s):
        f = a.quints.fields["f"]; l = L(k, q, s); t = T
        return And(l >= -1, l < k, Implies(l >= 0, And(t.c(q, s) == Ite(f[4](l) == -1, HALT, RUNNING), t.w(q, s) == f[2](l), t.d(q, s) == f[3](l), t.n(q, s) == f[4](l))))
    def loops(self):
        def table(env):
            r = [v for v in env.fr.locals.values() if isinstance(v, Obj) and v.cls == "Table"]
            if len(r) != 1: raise Unsupported("no table local")
            return r[0].fields["tab"]
        def fill(E, env):
            t = table(env); L = E.ghost["last"]; k = zi(env.extra["k"])
            return [("cells are the last quintuple so far", Forall([I, I], lambda q, s: And(self.cell(E, E.ghost["a"], t, L, k, q, s), Implies(L(k, q, s) == -1, t.c(q, s) == NONE)), patterns=lambda q, s: [L(k, q, s)]))]
        def fhead(E, env):
            k = zi(env.extra["k"]); L = E.ghost["last"]; f = E.ghost["a"].quints.fields["f"]
            E.assume(Forall([I, I], lambda q, s: L(k + 1, q, s) == Ite(And(f[0](k) == q, f[1](k) == s), k, L(k, q, s)), patterns=lambda q, s: [L(k + 1, q, s)]))
        def undef(t, q, s): return And(t.c(q, s) == UNDEF, t.w(q, s) == 1, t.d(q, s) == 1, t.n(q, s) == -1)
        def body(E, t, done):
            a = E.ghost["a"]; L = E.ghost["last"]; n = zi(a.quints.fields["n"])
            return [("rest is undefined", Forall([I, I], lambda q, s: And(self.cell(E, a, t, L, n, q, s), Implies(L(n, q, s) == -1, Ite(done(q, s), undef(t, q, s), t.c(q, s) == NONE))), patterns=lambda q, s: [L(n, q, s)]))]
        def rows(E, env):
            k = zi(env.extra["k"]); nk = zi(E.ghost["a"].symbols.fields["n"]); return body(E, table(env), lambda q, s: And(0 <= q, q < k, 0 <= s, s < nk))
        def rhead(E, env): E.ghost["rk"] = zi(env.extra["k"])
        def cols(E, env):
            k = zi(env.extra["k"]); nk = zi(E.ghost["a"].symbols.fields["n"]); rk = E.ghost["rk"]; return body(E, table(env), lambda q, s: And(0 <= s, s < nk, Or(And(0 <= q, q < rk), And(q == rk, s < k))))
        return [Loop("quintuples", fill, head=fhead), Loop("rows", rows, head=rhead), Loop("columns", cols)]
    def run_body(self, E, f, argv):
        E.ghost["a"] = NS(**dict(zip(self.params, argv))); return Contract.run_body(self, E, f, argv)
    def post(self, E, old, a, r):
        L = E.ghost["last"]; n = zi(a.quints.fields["n"]); ns, nk = zi(a.states.fields["n"]), zi(a.symbols.fields["n"])
        if not (isinstance(r, Obj) and getattr(r.cls, "name", "") == "Simple_Machine"): return [("a machine", False)]
        t = tab_of(r)
        und = lambda q, s: And(t.c(q, s) == UNDEF, t.w(q, s) == 1, t.d(q, s) == 1, t.n(q, s) == -1)
        return [("each cell is its last quintuple, or undefined", Forall([I, I], lambda q, s: Implies(And(0 <= q, q < ns, 0 <= s, s < nk), And(self.cell(E, a, t, L, n, q, s), Implies(L(n, q, s) == -1, und(q, s)))))),
                ("size", And(zi(r.fields["num_states"]) == ns, zi(r.fields["num_symbols"]) == nk)), ("starts in state 0 on blanks", And(zi(r.fields["init_state"]) == 0, zi(r.fields["init_symbol"]) == 0, zi(r.fields["init_dir"]) == 1))]
    def apply_call(self, E, f, argv):
        a = NS(**dict(zip(self.params, argv)))
        if not (isinstance(a.quints, Obj) and a.quints.cls == "Quints"): raise Unsupported("quintuple list %r" % (a.quints,))
        for lab, c in self.pre(E, a): E.prove("call tm_from_quintuples: requires " + lab, c, "pre")
        m = a.quints.fields["m"]; ns, nk = rng_len(E, a.states), rng_len(E, a.symbols)
        tab = Tab(lambda q, s: Ite(m.has(q, s), Ite(m.n(q, s) == -1, z3.IntVal(HALT), z3.IntVal(RUNNING)), z3.IntVal(UNDEF)), lambda q, s: Ite(m.has(q, s), m.w(q, s), z3.IntVal(1)), lambda q, s: Ite(m.has(q, s), m.d(q, s), z3.IntVal(1)), lambda q, s: Ite(m.has(q, s), m.n(q, s), z3.IntVal(-1)))
        return mk_tm(E, tab=tab, ns=ns, nk=nk)
def labels_comp(E, o, e):
    g = e.generators[0]
    if g.ifs: raise Unsupported("filter over labels")
    fr = E.frames[-1]; nf = Frame(fr.func, dict(fr.locals), fr.module, fr.closure); E.frames.append(nf)
    try:
        E.assign(g.target, E.int("label")); v = E.eval(e.elt)
    finally: E.frames.pop()
    if v is None: return Obj(E, "RowInit", {"n": o.fields["n"]})
    if isinstance(v, Obj) and v.cls == "RowInit":
        z = lambda a, b: z3.IntVal(0)
        return Obj(E, "Table", {"tab": Tab(lambda a, b: z3.IntVal(NONE), z, z, z), "ns": o.fields["n"], "nk": v.fields["n"], "wfc": False, "nullable": True, "sane": True})
    raise Unsupported("comprehension over labels")
def labels_attr(E, o, name):
    if name == "index":
        def f(E, x):
            if E.branch(And(zi(x) >= 0, zi(x) < zi(o.fields["n"]))): return x
            raise PyRaise("ValueError")
        return f
    return MISSING
def qseq_iter(E, o): f = o.fields["f"]; return o.fields["n"], lambda k: tuple(g(k) for g in f)

# ---- packed bytes ------------------------------------------------------------------
def enc(t, q, s): return Ite(t.c(q, s) == UNDEF, z3.IntVal(0), t.w(q, s) + 1 + 8 * (t.n(q, s) + 1) + 64 * t.d(q, s)) + Ite(s == 0, z3.IntVal(128), z3.IntVal(0))
def ENC(t, nk, j): return enc(t, ROW(nk, j), COL(nk, j))
class PackInts(Contract):
    module = RM; qualname = "pack_trans_ints"; params = ["symbol", "dir", "state", "is_newrow"]
    def args(self, E): return NS(symbol=E.int("sy"), dir=E.int("d"), state=E.int("st"), is_newrow=E.bool("new"))
    def fits(self, a): return And(-1 <= zi(a.symbol), zi(a.symbol) < 7, -1 <= zi(a.state), zi(a.state) < 7, zi(a.dir) >= 0, zi(a.dir) <= 1)
    def post(self, E, old, a, r): return [("bit fields", zi(r) == zi(a.symbol) + 1 + 8 * (zi(a.state) + 1) + 64 * zi(a.dir) + 128 * Ite(zb(E.truth(a.is_newrow)), z3.IntVal(1), z3.IntVal(0))), ("only what fits is packed", self.fits(a))]
    def raises(self, E, old, a, ex): return [("refuses only what does not fit (%s)" % ex.kind, And(ex.kind in ("AssertionError", "ValueError"), Not(self.fits(a))))]
    def apply_call(self, E, f, argv):
        a = NS(**dict(zip(self.params, argv))); E.prove("call pack_trans_ints: values fit the bit fields", self.fits(a), "pre")
        r = E.int("byte"); E.assume([c for _, c in self.post(E, None, a, r)]); return r
class UnpackInts(Contract):
    module = RM; qualname = "unpack_trans_ints"; params = ["byte_int"]
    def args(self, E): return NS(byte_int=E.int("b"))
    def pre(self, E, a): return [("a byte", And(0 <= a.byte_int, a.byte_int < 256))]
    def post(self, E, old, a, r):
        if not (isinstance(r, tuple) and len(r) == 4): return [("four values", False)]
        b = zi(a.byte_int); return [("symbol", zi(r[0]) == b % 8 - 1), ("direction", zi(r[1]) == b / 64 % 2), ("state", zi(r[2]) == b / 8 % 8 - 1), ("new row", zb(E.truth(r[3])) == (b >= 128))]
    def result(self, E, a, old): return (E.int("sy"), E.int("d"), E.int("st"), E.bool("new"))
class PackRound(Lemma):
    name = "unpacking a packed transition gives it back"
    def obligations(self, E):
        sy, d, st, nr = E.int("sy"), E.int("d"), E.int("st"), E.bool("nr"); b = sy + 1 + 8 * (st + 1) + 64 * d + 128 * Ite(nr, 1, 0)
        E.assume([-1 <= sy, sy < 7, -1 <= st, st < 7, 0 <= d, d <= 1])
        E.prove("a byte", And(0 <= b, b < 256)); E.prove("round trip", And(b % 8 - 1 == sy, b / 64 % 2 == d, b / 8 % 8 - 1 == st, (b >= 128) == nr))
class PackTrans(Contract):
    module = RM; qualname = "pack_trans"; params = ["trans", "is_newrow"]
    def args(self, E):
        tm = mk_tm(E); q, s = E.int("q"), E.int("s"); ns, nk = tm.fields["num_states"], tm.fields["num_symbols"]; E.assume([ns <= 7, nk <= 7, 0 <= q, q < ns, 0 <= s, s < nk]); E.ghost["c"] = (tab_of(tm), q, s)
        return NS(trans=row_get(E, table_get(E, tm.fields["trans_table"], q), s), is_newrow=E.bool("new"))
    def post(self, E, old, a, r):
        f = a.trans.fields; u = f["condition"] == "Undefined"
        return [("encoding of the cell", zi(r) == (z3.IntVal(0) if u else zi(f["symbol_out"]) + 1 + 8 * (zi(f["state_out"]) + 1) + 64 * zi(f["dir_out"])) + Ite(zb(E.truth(a.is_newrow)), z3.IntVal(128), z3.IntVal(0)))]
    def result(self, E, a, old): return E.int("byte")
    def pre(self, E, a):
        f = a.trans.fields
        return [] if f["condition"] == "Undefined" else [("fits", And(0 <= zi(f["symbol_out"]), zi(f["symbol_out"]) < 7, -1 <= zi(f["state_out"]), zi(f["state_out"]) < 7, 0 <= zi(f["dir_out"]), zi(f["dir_out"]) <= 1))]
def grid_head(E, env, q, s): pass
class PackTM(Contract):
    """byte j encodes cell j in row-major order"""
    module = RM; qualname = "pack_tm"; params = ["tm"]
    def args(self, E):
        tm = mk_tm(E); E.ghost["tm"] = tm; E.assume(grid_base(zi(tm.fields["num_symbols"]))); return NS(tm=tm)
    def pre(self, E, a): return [("fits", And(zi(a.tm.fields["num_states"]) <= 7, zi(a.tm.fields["num_symbols"]) <= 7))]
    def loops(self):
        def bytesv(env):
            r = [v for v in env.fr.locals.values() if isinstance(v, SymSeq) and v.kind == "bytes"]
            if len(r) != 1: raise Unsupported("no byte buffer local")
            return r[0]
        def common(E, env, i, q, s):
            tm = E.ghost["tm"]; nk = zi(tm.fields["num_symbols"]); t = tab_of(tm); p = bytesv(env)
            return [("position", And(i == q * nk + s, i >= 0)), ("grid", Ite(s < nk, And(ROW(nk, i) == q, COL(nk, i) == s), And(ROW(nk, i) == q + 1, COL(nk, i) == 0))), ("buffer size", zi(p.length) == zi(tm.fields["num_states"]) * nk),
                    ("bytes so far", Forall([I], lambda j: Implies(And(0 <= j, j < i), p.get(j) == ENC(t, nk, j))))]
        def rows(E, env): return common(E, env, zi(env.i), zi(env.extra["k"]), z3.IntVal(0))
        def rhead(E, env):
            k = zi(env.extra["k"]); E.ghost["rk"] = k; tm = E.ghost["tm"]; E.assume(mulfact(k, zi(tm.fields["num_states"]), zi(tm.fields["num_symbols"])))
        def cols(E, env):
            k = zi(env.extra["k"]); return common(E, env, zi(env.i), E.ghost["rk"], k) + [("new row flag", zb(E.truth(env.is_newrow)) == (k == 0))]
        def chead(E, env): E.assume(grid_step(zi(E.ghost["tm"].fields["num_symbols"]), zi(env.i)))
        return [Loop("rows", rows, head=rhead), Loop("cells", cols, head=chead)]
    def post(self, E, old, a, r):
        nk = zi(a.tm.fields["num_symbols"]); t = tab_of(a.tm); N = zi(a.tm.fields["num_states"]) * nk
        if not isinstance(r, SymSeq): return [("bytes", False)]
        return [("length", zi(r.length) == N), ("byte j encodes cell j", Forall([I], lambda j: Implies(And(0 <= j, j < N), r.get(j) == ENC(t, nk, j))))]
    def apply_call(self, E, f, argv):
        for lab, c in self.pre(E, NS(tm=argv[0])): E.prove("call pack_tm: requires " + lab, c, "pre")
        tm = argv[0]; return Obj(E, "Packed", {"tab": tab_of(tm), "ns": tm.fields["num_states"], "nk": tm.fields["num_symbols"]})
class UnpackTM(Contract):
    """decoding what pack_tm produces gives the same table"""
    module = RM; qualname = "unpack_tm"; params = ["pack"]
    def args(self, E):
        ns, nk = E.int("ns"), E.int("nk"); E.assume([1 <= ns, ns <= 7, 1 <= nk, nk <= 7, grid_base(nk)]); t = fresh_tab(E, "T", ns, nk); E.ghost["t"] = (t, ns, nk); wf_all(E, t, ns, nk)
        p = SymSeq(E, lambda j: ENC(t, nk, j), ns * nk, "bytes"); return NS(pack=p)
    def loops(self):
        def inv(E, env):
            t, ns, nk = E.ghost["t"]; k = zi(env.extra["k"]); m = find_local(env, "Quints").fields["m"]; r, c = ROW(nk, k), COL(nk, k)
            out = [("row", zi(env.state_in) == Ite(c == 0, r - 1, r)), ("cells so far", cells_so_far(m, t, lambda q, s: And(0 <= q, 0 <= s, s < nk, Or(q < r, And(q == r, s < c)))))]
            if env.has("symbol_in"): out.append(("column", zi(env.symbol_in) == Ite(c == 0, nk, c)))
            else: out.append(("first cell", k == 0))
            return out
        def head(E, env):
            t, ns, nk = E.ghost["t"]; k = zi(env.extra["k"]); E.assume([grid_fact(nk, k), grid_step(nk, k), grid_fact(nk, k + 1), mulfact(ns, ROW(nk, k), nk), mulfact(ROW(nk, k), ns, nk)])
            E.assume(Implies(k < ns * nk, And(ROW(nk, k) < ns, wf_cell(t, ROW(nk, k), COL(nk, k), ns, nk))))
        def bind(E, fr, n, k):
            if n == (E.rename or {}).get("symbol_in", "symbol_in") and not E.branch(k == 0): return E.int("symbol_in")
            return MISSING
        def ex(E, env):
            t, ns, nk = E.ghost["t"]; k = zi(env.extra["k"]); E.assume([mulfact(ns, ROW(nk, k), nk), mulfact(ROW(nk, k), ns, nk), grid_fact(nk, k)])
        return [Loop("bytes", inv, head=head, bind_unbound=bind, exit=ex, pre=abstract(mk_quints))]
    def post(self, E, old, a, r):
        t, ns, nk = E.ghost["t"]; u = tab_of(r)
        return [("size", And(zi(r.fields["num_states"]) == ns, zi(r.fields["num_symbols"]) == nk)), ("same table", Forall([I, I], lambda q, s: Implies(And(0 <= q, q < ns, 0 <= s, s < nk), u.same(t, q, s))))]
    def apply_call(self, E, f, argv):
        p = argv[0]
        if not (isinstance(p, Obj) and p.cls == "Packed"): raise Unsupported("packed table %r" % (p,))
        return mk_tm(E, tab=p.fields["tab"], ns=p.fields["ns"], nk=p.fields["nk"])
def wf_all(E, t, ns, nk): E.assume(Forall([I, I], lambda q, s: Implies(And(0 <= q, q < ns, 0 <= s, s < nk), wf_cell(t, q, s, ns, nk)), patterns=lambda q, s: [t.c(q, s)]))

# ---- list form ----------------------------------------------------------------------
def LST(t, nk, i):
    j = i / 3; q, s = ROW(nk, j), COL(nk, j); return Ite(i % 3 == 0, Ite(t.c(q, s) == UNDEF, z3.IntVal(-1), t.w(q, s)), Ite(i % 3 == 1, t.d(q, s), t.n(q, s)))
def int_seq(E, name):
    f = E.func(name, I, I); n = E.int(name + "_len"); E.assume(n >= 0)
    return SymSeq(E, lambda i: f(i), n, "list", mk=lambda E, nm: (lambda g: (lambda i: g(i)))(E.func(nm, I, I)))
class TmToList(Contract):
    """entries 3j..3j+2 are the written symbol (or -1), direction and next state of cell j"""
    module = RM; qualname = "tm_to_list"; params = ["tm", "tm_list"]
    def args(self, E):
        tm = mk_tm(E); E.assume(grid_base(zi(tm.fields["num_symbols"]))); L = Obj(E, "TMList", {"num_states": E.int("x"), "num_symbols": E.int("y"), "ttable_list": int_seq(E, "old_list")}); E.ghost["tm"] = tm; E.ghost["L"] = L
        return NS(tm=tm, tm_list=L)
    def modifies(self, E, a): return [(a.tm_list, None), (a.tm_list.fields["ttable_list"], "*")]
    def loops(self):
        def common(E, j, q, s):
            tm = E.ghost["tm"]; nk = zi(tm.fields["num_symbols"]); t = tab_of(tm); L = E.ghost["L"].fields["ttable_list"]
            return [("length", zi(L.length) == 3 * j), ("position", j >= 0), ("grid", Ite(s < nk, And(ROW(nk, j) == q, COL(nk, j) == s), And(ROW(nk, j) == q + 1, COL(nk, j) == 0))), ("entries so far", Forall([I], lambda i: Implies(And(0 <= i, i < 3 * j), L.get(i) == LST(t, nk, i))))]
        def rows(E, env): k = zi(env.extra["k"]); nk = zi(E.ghost["tm"].fields["num_symbols"]); return common(E, k * nk, k, z3.IntVal(0))
        def rhead(E, env): E.ghost["rk"] = zi(env.extra["k"])
        def cols(E, env): k = zi(env.extra["k"]); nk = zi(E.ghost["tm"].fields["num_symbols"]); q = E.ghost["rk"]; return common(E, q * nk + k, q, k)
        def chead(E, env): nk = zi(E.ghost["tm"].fields["num_symbols"]); E.assume(grid_step(nk, E.ghost["rk"] * nk + zi(env.extra["k"])))
        return [Loop("states", rows, head=rhead), Loop("symbols", cols, head=chead)]
    def post(self, E, old, a, r):
        nk = zi(a.tm.fields["num_symbols"]); ns = zi(a.tm.fields["num_states"]); t = tab_of(a.tm); L = a.tm_list.fields
        return [("sizes", And(zi(L["num_states"]) == ns, zi(L["num_symbols"]) == nk)), ("length", zi(L["ttable_list"].length) == 3 * (ns * nk)), ("entries", Forall([I], lambda i: Implies(And(0 <= i, i < 3 * (ns * nk)), L["ttable_list"].get(i) == LST(t, nk, i))))]
    def apply_call(self, E, f, argv):
        tm, L = argv
        if not (isinstance(L, Obj) and L.cls == "TMList" and "of" in L.meta): raise Unsupported("list message %r" % (L,))
        E.setfield(L, "enc", (tab_of(tm), tm.fields["num_states"], tm.fields["num_symbols"])); E.setfield(L.meta["of"], "which", "ttable_list")
class TmFromList(Contract):
    """decoding what tm_to_list produces gives the same table"""
    module = RM; qualname = "tm_from_list"; params = ["tm_list"]
    def args(self, E):
        ns, nk = E.int("ns"), E.int("nk"); E.assume([1 <= ns, 1 <= nk, grid_base(nk)]); t = fresh_tab(E, "T", ns, nk); E.ghost["t"] = (t, ns, nk); wf_all(E, t, ns, nk)
        return NS(tm_list=Obj(E, "TMList", {"num_states": ns, "num_symbols": nk, "ttable_list": SymSeq(E, lambda i: LST(t, nk, i), 3 * (ns * nk), "list")}))
    def loops(self):
        def common(E, env, j, q, s):
            t, ns, nk = E.ghost["t"]; m = find_local(env, "Quints").fields["m"]
            return [("position", And(zi(env.i) == 3 * j, j >= 0)), ("grid", Ite(s < nk, And(ROW(nk, j) == q, COL(nk, j) == s), And(ROW(nk, j) == q + 1, COL(nk, j) == 0))),
                    ("cells so far", cells_so_far(m, t, lambda a, b: And(0 <= a, 0 <= b, b < nk, Or(a < q, And(a == q, b < s)))))]
        def rows(E, env): t, ns, nk = E.ghost["t"]; k = zi(env.extra["k"]); return common(E, env, k * nk, k, z3.IntVal(0))
        def rhead(E, env): t, ns, nk = E.ghost["t"]; k = E.ghost["rk"] = zi(env.extra["k"]); E.assume(mulfact(k, ns, nk))
        def cols(E, env): t, ns, nk = E.ghost["t"]; k = zi(env.extra["k"]); q = E.ghost["rk"]; return common(E, env, q * nk + k, q, k)
        def chead(E, env):
            t, ns, nk = E.ghost["t"]; k = zi(env.extra["k"]); q = E.ghost["rk"]; E.assume([grid_step(nk, q * nk + k), Implies(k < nk, wf_cell(t, q, k, ns, nk))])
        return [Loop("states", rows, head=rhead, pre=abstract(mk_quints)), Loop("symbols", cols, head=chead)]
    post = UnpackTM.post
    def apply_call(self, E, f, argv):
        L = argv[0]
        if not (isinstance(L, Obj) and L.cls == "TMList" and L.fields.get("enc")): raise Unsupported("list message %r" % (L,))
        t, ns, nk = L.fields["enc"]; return mk_tm(E, tab=t, ns=ns, nk=nk)

# ---- text ---------------------------------------------------------------------------
def chars(x):
    """character codes of a str / Char / Text value"""
    if isinstance(x, str): return [z3.IntVal(ord(c)) for c in x]
    if isinstance(x, Obj) and x.cls in ("Char", "Text"): return x.fields["codes"]
    return None
def text(E, codes): return Obj(E, "Char" if len(codes) == 1 else "Text", {"codes": codes})
def str_getitem(E, o, k):
    j = zi(E.index_norm(k, len(o)))
    if all(ord(c) == ord(o[0]) + i for i, c in enumerate(o)): return text(E, [z3.IntVal(ord(o[0])) + j])
    r = z3.IntVal(ord(o[-1]))
    for i in range(len(o) - 2, -1, -1): r = Ite(j == i, z3.IntVal(ord(o[i])), r)
    return text(E, [r])
def str_percent(E, a, b):
    b = b if isinstance(b, tuple) else (b,); out = []; parts = a.replace("%s", "%c").split("%c")
    if "%" in "".join(parts) or len(parts) != len(b) + 1: return MISSING
    for i, p in enumerate(parts):
        out += chars(p)
        if i < len(b):
            c = chars(b[i])
            if c is None: return MISSING
            out += c
    return text(E, out)
def text_eq(E, x, y):
    a, b = chars(x), chars(y)
    if a is None or b is None: return False
    return And(*[p == q for p, q in zip(a, b)]) if len(a) == len(b) else False
def text_get(E, o, k):
    cs = o.fields["codes"]
    if isinstance(k, int): 
        if not -len(cs) <= k < len(cs): raise PyRaise("IndexError")
        return text(E, [cs[k]])
    raise Unsupported("text index")
def text_cat(E, op, a, b):
    import ast as _a
    x, y = chars(a), chars(b)
    if isinstance(op, _a.Add) and x is not None and y is not None: return text(E, x + y)
    return MISSING
def str_find(E, o, x, *r):
    if r or not (isinstance(x, Obj) and x.cls == "Char"): return MISSING
    c = x.fields["codes"][0]
    if all(ord(ch) == ord(o[0]) + i for i, ch in enumerate(o)): return Ite(And(c >= ord(o[0]), c < ord(o[0]) + len(o)), c - ord(o[0]), z3.IntVal(-1))
    r = z3.IntVal(-1)
    for i in range(len(o) - 1, -1, -1): r = Ite(c == ord(o[i]), z3.IntVal(i), r)
    return r
def cell_text(t, q, s):
    u = t.c(q, s) == UNDEF
    return [Ite(u, z3.IntVal(45), 48 + t.w(q, s)), Ite(u, z3.IntVal(45), Ite(t.d(q, s) == 0, z3.IntVal(76), z3.IntVal(82))), Ite(u, z3.IntVal(45), Ite(t.c(q, s) == HALT, z3.IntVal(90), 65 + t.n(q, s)))]
def same_text(x, codes):
    c = chars(x); return And(*[p == q for p, q in zip(c, codes)]) if c is not None and len(c) == len(codes) else False
class ToTtableStr(Contract):
    module = TMM; qualname = "Transition.to_ttable_str"; params = ["self"]
    def args(self, E):
        tm = mk_tm(E); q, s = E.int("q"), E.int("s"); ns, nk = tm.fields["num_states"], tm.fields["num_symbols"]; E.assume([ns < 25, nk < 10, 0 <= q, q < ns, 0 <= s, s < nk])
        return NS(self=row_get(E, table_get(E, tm.fields["trans_table"], q), s))
    def pre(self, E, a):
        f = a.self.fields; return [] if f["condition"] == "Undefined" else [("representable", And(0 <= zi(f["symbol_out"]), zi(f["symbol_out"]) < 10, 0 <= zi(f["dir_out"]), zi(f["dir_out"]) <= 1, zi(f["state_out"]) < 25))]
    def spec(self, a):
        T, q, s = a.self.meta["cell"]; return cell_text(T.fields["tab"], q, s)
    def post(self, E, old, a, r): return [("three characters of the cell", same_text(r, self.spec(a)))]
    def result(self, E, a, old): return text(E, [E.int("ch") for _ in range(3)])
def row_comp(E, o, e):
    g = e.generators[0]
    if g.ifs: raise Unsupported("filter over a row")
    T, q = o.fields["table"], o.fields["q"]; s = E.int("s"); E.assume([0 <= s, s < zi(T.fields["nk"])])
    fr = E.frames[-1]; nf = Frame(fr.func, dict(fr.locals), fr.module, fr.closure); E.frames.append(nf)
    try: E.assign(g.target, row_get(E, o, s)); v = E.eval(e.elt)
    finally: E.frames.pop()
    E.prove("text of each cell of the row", same_text(v, cell_text(T.fields["tab"], q, s)))
    return Obj(E, "RowGen", {"table": T, "q": q})
def table_comp(E, o, e):
    g = e.generators[0]
    if g.ifs: raise Unsupported("filter over rows")
    q = E.int("q"); E.assume([0 <= q, q < zi(o.fields["ns"])]); fr = E.frames[-1]; nf = Frame(fr.func, dict(fr.locals), fr.module, fr.closure); E.frames.append(nf)
    try: E.assign(g.target, table_get(E, o, q)); v = E.eval(e.elt)
    finally: E.frames.pop()
    E.prove("text of each row", And(zi(v.fields["q"]) == q) if isinstance(v, Obj) and v.cls == "RowText" and v.fields["table"] is o else False)
    r = Obj(E, "Rows", {"table": o, "n": zi(o.fields["ns"])}); return r
def str_join(E, o, it):
    if isinstance(it, Obj) and it.cls == "RowGen":
        E.prove("cells are joined without separator", o == ""); return Obj(E, "RowText", dict(it.fields))
    if isinstance(it, Obj) and it.cls == "Rows":
        E.prove("rows are joined by an underscore", o == "_"); return Obj(E, "Line", {"table": it.fields["table"], "n": it.fields["n"]})
    xs = E.iter_concrete(it); cs = [chars(x) for x in xs]
    if all(isinstance(x, str) for x in xs): return o.join(xs)
    if any(c is None for c in cs): return Opaque("join")
    out = []
    for i, c in enumerate(cs): out += (chars(o) if i else []) + c
    return text(E, out)
def rows_attr(E, o, name):
    if name == "append":
        def f(E, x):
            T = E.ghost["T"]
            E.prove("rows are appended in order", And(zi(x.fields["q"]) == o.fields["n"]) if isinstance(x, Obj) and x.cls == "RowText" and x.fields["table"] is T else False)
            E.setfield(o, "n", o.fields["n"] + 1)
        return f
    raise Unsupported("rows." + name)
class TtableStr(Contract):
    module = TMM; qualname = "Simple_Machine.ttable_str"; params = ["self"]
    def args(self, E): tm = mk_tm(E); E.ghost["T"] = tm.fields["trans_table"]; return NS(self=tm)
    def loops(self):
        def inv(E, env): return [("rows so far", find_local(env, "Rows").fields["n"] == zi(env.extra["k"]))]
        return [Loop("rows", inv, pre=abstract(lambda E: Obj(E, "Rows", {"table": E.ghost["T"], "n": z3.IntVal(0)})))]
    def post(self, E, old, a, r):
        ns, nk = zi(a.self.fields["num_states"]), zi(a.self.fields["num_symbols"]); fits = And(ns < 25, nk < 10)
        if r == "": return [("empty only when the text format cannot hold the machine", Not(fits))]
        return [("text of the whole table", And(r.fields["n"] == ns, fits) if isinstance(r, Obj) and r.cls == "Line" and r.fields["table"] is a.self.fields["trans_table"] else False)]
    def apply_call(self, E, f, argv):
        tm = argv[0]; ns, nk = zi(tm.fields["num_states"]), zi(tm.fields["num_symbols"])
        if E.branch(And(ns < 25, nk < 10)): return Obj(E, "Line", {"table": tm.fields["trans_table"], "n": ns})
        return ""
def line_attr(E, o, name):
    if name in ("strip", "rstrip"): return lambda E, *a: o
    if name == "split":
        def f(E, *a):
            T = o.fields["table"]
            if a == ("_",): return SymSeq(E, lambda i: Obj(E, "RowText", {"table": T, "q": zi(i)}), T.fields["ns"], "list")
            if a == (): return PyList(E, [o])
            raise Unsupported("split%r" % (a,))
        return f
    raise Unsupported("str." + name)
def line_has(E, o, x):
    if x in (" ", "\t", "\n"): return False
    raise Unsupported("%r in line" % (x,))
def rowtext_get(E, o, k):
    if isinstance(k, slice) and k.step is None and k.start is not None and k.stop is not None:
        i, j = zi(k.start), zi(k.stop); T = o.fields["table"]; n = 3 * zi(T.fields["nk"]); c = i / 3
        E.prove("cell slice is aligned", And(i % 3 == 0, j == i + 3, 0 <= i, i + 3 <= n))
        E.assume(wf_cell(T.fields["tab"], o.fields["q"], c, zi(T.fields["ns"]), zi(T.fields["nk"])))
        return text(E, cell_text(T.fields["tab"], o.fields["q"], c))
    raise Unsupported("row text index")
class ParseTM(Contract):
    """parsing the text of a machine gives the same table"""
    module = RM; qualname = "parse_tm"; params = ["line"]
    def args(self, E):
        ns, nk = E.int("ns"), E.int("nk"); E.assume([1 <= ns, ns < 25, 1 <= nk, nk < 10]); t = fresh_tab(E, "T", ns, nk); E.ghost["t"] = (t, ns, nk); wf_all(E, t, ns, nk)
        T = Obj(E, "Table", {"tab": t, "ns": ns, "nk": nk, "wfc": True}); return NS(line=Obj(E, "Line", {"table": T, "n": ns}))
    def loops(self):
        def common(E, env, q, s):
            t, ns, nk = E.ghost["t"]; m = find_local(env, "Quints").fields["m"]
            return [("cells so far", cells_so_far(m, t, lambda a, b: And(0 <= a, 0 <= b, b < nk, Or(a < q, And(a == q, b < s))))), ("largest column", zi(env.max_symbol) == Ite(q > 0, nk - 1, Ite(s > 0, s - 1, 0)))]
        def rows(E, env): return common(E, env, zi(env.extra["k"]), z3.IntVal(0))
        def rhead(E, env): E.ghost["rk"] = zi(env.extra["k"])
        def cols(E, env): return common(E, env, E.ghost["rk"], zi(env.extra["k"]))
        def chead(E, env): t, ns, nk = E.ghost["t"]; k = zi(env.extra["k"]); E.assume(Implies(And(0 <= k, k < nk), wf_cell(t, E.ghost["rk"], k, ns, nk)))
        return [Loop("rows", rows, head=rhead, pre=abstract(mk_quints)), Loop("cells", cols, head=chead)]
    post = UnpackTM.post
    def apply_call(self, E, f, argv):
        if not (isinstance(argv[0], Obj) and argv[0].cls == "Line"): raise Unsupported("text %r" % (argv[0],))
        T = argv[0].fields["table"]; return mk_tm(E, tab=T.fields["tab"], ns=T.fields["ns"], nk=T.fields["nk"])

# ---- the stored machine of a record -------------------------------------------------
def mk_pbtm(E, which=None):
    o = Obj(E, "PBTM", {"which": which, "allow_no_halt": E.bool("anh")}); L = Obj(E, "TMList", {"enc": None}); L.meta["of"] = o; o.fields["ttable_list"] = L; o.fields["packed"] = None; o.fields["str"] = None
    return o
def pbtm_attr(E, o, name):
    if name == "WhichOneof": return lambda E, w: o.fields["which"] if w == "ttable" else None
    if name == "ttable_packed": return o.fields["packed"]
    if name == "ttable_str": return o.fields["str"]
    return MISSING
def pbtm_set(E, o, name, v):
    if name in ("ttable_packed", "ttable_str"):
        E.setfield(o, "which", name); E.setfield(o, "packed" if name == "ttable_packed" else "str", v); return True
    return False
def denotes(o):
    """(table, states, symbols) the message stores, or None"""
    w = o.fields["which"]
    if w == "ttable_packed" and isinstance(o.fields["packed"], Obj): p = o.fields["packed"].fields; return p["tab"], p["ns"], p["nk"]
    if w == "ttable_list" and o.fields["ttable_list"].fields.get("enc"): return o.fields["ttable_list"].fields["enc"]
    if w == "ttable_str" and isinstance(o.fields["str"], Obj): T = o.fields["str"].fields["table"].fields; return T["tab"], T["ns"], T["nk"]
    return None
def same_machine(d, tm):
    if d is None: return [("a table is stored", False)]
    t, ns, nk = d; u = tab_of(tm); n, k = zi(tm.fields["num_states"]), zi(tm.fields["num_symbols"])
    return [("stored size", And(zi(ns) == n, zi(nk) == k)), ("stored table is the machine's", Forall([I, I], lambda q, s: Implies(And(0 <= q, q < n, 0 <= s, s < k), t.same(u, q, s))))]
class WriteTM(Contract):
    module = RM; qualname = "write_tm"; params = ["tm", "proto_tm"]
    def args(self, E): return NS(tm=mk_tm(E), proto_tm=mk_pbtm(E, E.case(None, "ttable_packed", "ttable_list")))
    def modifies(self, E, a): return [(a.proto_tm, None), (a.proto_tm.fields["ttable_list"], None)]
    def post(self, E, old, a, r): return same_machine(denotes(a.proto_tm), a.tm)
    def apply_call(self, E, f, argv):
        tm, o = argv
        if not (isinstance(o, Obj) and o.cls == "PBTM"): raise Unsupported("write_tm into %r" % (o,))
        E.setfield(o, "which", "ttable_packed"); E.setfield(o, "packed", Obj(E, "Packed", {"tab": tab_of(tm), "ns": tm.fields["num_states"], "nk": tm.fields["num_symbols"]}))
class ReadTM(Contract):
    module = RM; qualname = "read_tm"; params = ["proto_tm"]
    def args(self, E):
        o = mk_pbtm(E, E.case("ttable_packed", "ttable_list", "ttable_str")); tm = mk_tm(E); t, ns, nk = tab_of(tm), tm.fields["num_states"], tm.fields["num_symbols"]; E.ghost["tm"] = tm
        if o.fields["which"] == "ttable_packed": o.fields["packed"] = Obj(E, "Packed", {"tab": t, "ns": ns, "nk": nk})
        elif o.fields["which"] == "ttable_str": o.fields["str"] = Obj(E, "Line", {"table": tm.fields["trans_table"], "n": ns})
        else: o.fields["ttable_list"].fields["enc"] = (t, ns, nk)
        return NS(proto_tm=o)
    def post(self, E, old, a, r): return same_machine(denotes(a.proto_tm), r) if isinstance(r, Obj) else [("a machine", False)]
    def apply_call(self, E, f, argv):
        d = denotes(argv[0])
        if d is None: raise Unsupported("read_tm of an empty message")
        return mk_tm(E, tab=d[0], ns=d[1], nk=d[2])
class UpdateTM(Contract):
    module = RM; qualname = "TM_Record.update_tm"; params = ["self", "tm_enum"]
    def args(self, E):
        te = E.new("TM_Enum", "TM_Enum", tm=mk_tm(E), allow_no_halt=E.bool("allow")); r = E.new(RM, "TM_Record", proto=Obj(E, "PB", {"tm": mk_pbtm(E)}), tme=E.case(None, Obj(E, "OldTme", {}))); return NS(self=r, tm_enum=te)
    def modifies(self, E, a): o = a.self.fields["proto"].fields["tm"]; return [(a.self, "tme"), (o, None), (o.fields["ttable_list"], None)]
    def post(self, E, old, a, r):
        o = a.self.fields["proto"].fields["tm"]
        return same_machine(denotes(o), a.tm_enum.fields["tm"]) + [("whether a machine without halt is allowed is stored", zb(E.truth(o.fields["allow_no_halt"])) == zb(E.truth(a.tm_enum.fields["allow_no_halt"]))), ("the record uses this machine", a.self.fields["tme"] is a.tm_enum)]
    def apply_call(self, E, f, argv):
        r, te = argv; o = r.fields["proto"].fields["tm"]; E.setfield(r, "tme", te); tm = te.fields["tm"]
        E.setfield(o, "which", "ttable_packed"); E.setfield(o, "packed", Obj(E, "Packed", {"tab": tab_of(tm), "ns": tm.fields["num_states"], "nk": tm.fields["num_symbols"]})); E.setfield(o, "allow_no_halt", te.fields["allow_no_halt"])
class RecTmEnum(Contract):
    """the record's machine is the stored one"""
    module = RM; qualname = "TM_Record.tm_enum"; params = ["self"]
    def args(self, E):
        tm = mk_tm(E); o = mk_pbtm(E, "ttable_packed"); o.fields["packed"] = Obj(E, "Packed", {"tab": tab_of(tm), "ns": tm.fields["num_states"], "nk": tm.fields["num_symbols"]})
        te = E.new("TM_Enum", "TM_Enum", tm=tm, allow_no_halt=o.fields["allow_no_halt"]); r = E.new(RM, "TM_Record", proto=Obj(E, "PB", {"tm": o}), tme=E.case(None, te)); return NS(self=r)
    def modifies(self, E, a): return [(a.self, "tme")]
    def post(self, E, old, a, r):
        o = a.self.fields["proto"].fields["tm"]
        if not (isinstance(r, Obj) and getattr(r.cls, "name", "") == "TM_Enum"): return [("an enumeration machine", False)]
        return same_machine(denotes(o), r.fields["tm"]) + [("allow-no-halt as stored", zb(E.truth(r.fields["allow_no_halt"])) == zb(E.truth(o.fields["allow_no_halt"])))]
class RecInit(Contract):
    module = RM; qualname = "TM_Record.__init__"; params = ["self", "proto", "tm_enum"]
    def args(self, E):
        te = E.new("TM_Enum", "TM_Enum", tm=mk_tm(E), allow_no_halt=E.bool("allow")); E.ghost["new"] = []
        return NS(self=E.new(RM, "TM_Record"), proto=E.case(None, Obj(E, "PB", {"tm": mk_pbtm(E)})), tm_enum=E.case(None, te))
    def modifies(self, E, a):
        out = [(a.self, None), (a.self, "proto"), (a.self, "tme")]
        if a.proto is not None and a.tm_enum is not None: o = a.proto.fields["tm"]; out += [(o, None), (o.fields["ttable_list"], None)]
        return out
    def post(self, E, old, a, r):
        p = a.self.fields.get("proto"); out = []
        if a.proto is not None: out.append(("keeps the given message", p is a.proto))
        else: out.append(("a new message", isinstance(p, Obj)))
        if a.tm_enum is not None and isinstance(p, Obj): out += same_machine(denotes(p.fields["tm"]), a.tm_enum.fields["tm"])
        else: out.append(("machine decoded on demand", a.self.fields.get("tme", 1) is None))
        return out
def bitor(E, x, y):
    """x | y for operands with disjoint bits: checked, then addition"""
    for a, b in ((x, y), (y, x)):
        for k in range(0, 10):
            r, _ = E._check([z3.Not(And(a >= 0, a < 2 ** k, b >= 0, b % (2 ** k) == 0))])
            if r == "unsat": return x + y
    raise Unsupported("bitwise or of overlapping bits")
EXTS = dict(EXTS)
EXTS.update({("int", "bitor"): bitor, ("Quints", "attr"): quints_attr, ("Quints", "havoc"): quints_havoc, ("Labels", "comp"): labels_comp, ("Labels", "attr"): labels_attr, ("Labels", "len"): lambda E, o: o.fields["n"], ("QSeq", "iter"): qseq_iter,
             ("str", "getitem"): str_getitem, ("str", "%"): str_percent, ("str", "join"): str_join, ("str", "find"): str_find, ("str", "index"): lambda E, o, *a: MISSING if all(isinstance(x, str) for x in a) else (_ for _ in ()).throw(Unsupported("str.index")),
             ("Char", "eq"): text_eq, ("Text", "eq"): text_eq, ("Char", "len"): lambda E, o: 1, ("Text", "len"): lambda E, o: len(o.fields["codes"]), ("Text", "getitem"): text_get, ("binop", "Char"): text_cat, ("binop", "Text"): text_cat,
             ("Row", "comp"): row_comp, ("Table", "comp"): table_comp, ("Rows", "attr"): rows_attr, ("Line", "attr"): line_attr, ("Line", "contains"): line_has, ("RowText", "len"): lambda E, o: 3 * zi(o.fields["table"].fields["nk"]), ("RowText", "getitem"): rowtext_get,
             ("PBTM", "attr"): pbtm_attr, ("PBTM", "setattr"): pbtm_set, ("external", "io_pb2.TMRecord"): lambda E: Obj(E, "PB", {"tm": mk_pbtm(E)})})
CONTRACTS = [TmFromQuints(), PackInts(), UnpackInts(), PackTrans(), PackTM(), UnpackTM(), TmToList(), TmFromList(), ToTtableStr(), TtableStr(), ParseTM(), WriteTM(), ReadTM(), UpdateTM(), RecTmEnum(), RecInit()]
LEMMAS = ["GridLemma", "MulLemma", "PackRound"]
