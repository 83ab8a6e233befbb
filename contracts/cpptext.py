"""Contracts of WriteTuringMachine and ReadTuringMachine (C23): both speak about
the same layout of characters, so reading back what was written gives the table
that was written."""
import z3
from pyvc.engine import *
from pyvc.contract import *
from . import cppcommon as CC
from . import cppenum as CE
M = "cpp"; I = z3.IntSort()
TERM = [ord(c) for c in " \n\t,#|"]
def chars(t, q, s):
    """the three characters of a cell: ---, or symbol, R/L, letter (Z: halt)"""
    u = t.u(q, s); return [Ite(u, 45, 48 + t.w(q, s)), Ite(u, 45, Ite(t.d(q, s) == 1, 82, 76)), Ite(u, 45, Ite(t.n(q, s) >= 0, 65 + t.n(q, s), 90))]
class Lay:
    """row q begins at B(q); cells take three characters, rows end with _"""
    def __init__(s, E, t, ns, nk, b0): s.B = E.func("row_at", I, I); s.t, s.ns, s.nk, s.b0 = t, ns, nk, b0
    def base(s): return s.B(0) == s.b0
    def unf(s, q): return s.B(q + 1) == s.B(q) + 3 * s.nk + 1
    def cell(s, ch, q, y): c = chars(s.t, q, y); p = s.B(q) + 3 * y; return And(ch(p) == c[0], ch(p + 1) == c[1], ch(p + 2) == c[2])
    def sep(s, ch, q): return ch(s.B(q) - 1) == 95
def plain_char(c): return And(*[c != x for x in TERM])
def cell_ok(t, ns, nk, q, s): return Implies(And(0 <= q, q < ns, 0 <= s, s < nk), And(t.w(q, s) >= 0, t.w(q, s) < nk, t.n(q, s) >= -1, t.n(q, s) < ns, Or(t.d(q, s) == 1, t.d(q, s) == -1), Implies(t.u(q, s), And(t.n(q, s) == -1, t.w(q, s) == 1, t.d(q, s) == 1))))
# ---- output -----------------------------------------------------------------------
def put(E, o, codes):
    if not isinstance(o, Obj) or "ch" not in o.fields: raise Unsupported("stream")
    ch, n = o.fields["ch"], zi(o.fields["n"]); cs = [zi(c) for c in codes]
    def g(i):
        r = ch(i)
        for k in range(len(cs) - 1, -1, -1): r = z3.If(i == n + k, cs[k], r)
        return r
    E.setfield(o, "ch", g); E.setfield(o, "n", n + len(cs)); return o
def put_str(E, a, kw):
    v = a[1].fields.get("v") if isinstance(a[1], Obj) else None
    if not isinstance(v, str): raise Unsupported("output of a string that is not a constant")
    return put(E, a[0], [ord(c) for c in v])
def put_int(E, a, kw): x = zi(a[1]); E.prove("the number printed is one digit", And(0 <= x, x <= 9)); return put(E, a[0], [48 + x])
def put_char(E, a, kw): return put(E, a[0], [zi(a[1])])
def tok(E, o, t):
    if not isinstance(o, Obj) or "log" not in o.fields: raise Unsupported("stream")
    E.setfield(o, "log", o.fields["log"] + (t,)); return o
def out_str(E, a, kw):
    if isinstance(a[0], Obj) and "log" not in a[0].fields: return put_str(E, a, kw)
    v = a[1].fields.get("v") if isinstance(a[1], Obj) else None
    if not isinstance(v, str): raise Unsupported("output of a string that is not a constant")
    return tok(E, a[0], ("str", v))
def out_int(E, a, kw): return put_int(E, a, kw) if isinstance(a[0], Obj) and "log" not in a[0].fields else tok(E, a[0], ("int", zi(a[1])))
def out_char(E, a, kw):
    if isinstance(a[0], Obj) and "log" not in a[0].fields: return put_char(E, a, kw)
    c = z3.simplify(zi(a[1]))
    if not z3.is_int_value(c): raise Unsupported("output of a character")
    return tok(E, a[0], ("str", chr(c.as_long())))
def cbool(E, a, kw):
    x = a[0]
    if isinstance(x, Obj) and "present" in x.fields: return x.fields["present"]
    if isinstance(x, Obj): return True
    if x is None: return False
    return E.truth(x)
def stream_havoc(E, o, field):
    if field == "ch": f = E.func("out", I, I); o.fields["ch"] = lambda i: f(i); return True
    return False
class Write(Contract):
    module = M; qualname = "WriteTuringMachine"; params = ["tm", "outstream"]; feas_ms = 100
    def args(self, E):
        tm = CE.mk_tm(E); f = E.func("before", I, I); o = Obj(E, "CStream", {"ch": lambda i: f(i), "n": E.int("n0")}); E.ghost.update(f0=o.fields["ch"], n0=o.fields["n"]); t = CE.tab(tm); ns, nk = CE.size(tm); E.ghost["L"] = Lay(E, t, ns, nk, o.fields["n"]); return NS(tm=tm, outstream=o)
    def pre(self, E, a):
        E.ghost["a"] = a; L = E.ghost["L"]; return CE.shape(a.tm) + [("the format's limits", And(L.ns <= 25, L.nk <= 9)), ("cells of a well-formed table", Forall([I, I], lambda q, s: cell_ok(L.t, L.ns, L.nk, q, s), patterns=lambda q, s: [L.t.n(q, s)]))]
    def modifies(self, E, a): return [(a.outstream, None)]
    def common(self, E, q, s, upto):
        """what is on the stream: rows before q and s cells of row q; upto: next position"""
        a, L = E.ghost["a"], E.ghost["L"]; o = a.outstream.fields; ch, n = o["ch"], zi(o["n"]); n0, f0 = E.ghost["n0"], E.ghost["f0"]; done = lambda x, y: And(0 <= x, 0 <= y, y < L.nk, Or(x < q, And(x == q, y < s)))
        return [("position", n == upto), ("rows lie below", Forall([I], lambda x: Implies(And(0 <= x, x < q), L.B(x) + 3 * L.nk + 1 <= L.B(q)))), ("rows after the start", Forall([I], lambda x: Implies(And(0 <= x, x <= q), L.B(x) >= n0))),
                ("earlier output is kept", Forall([I], lambda i: Implies(i < n0, ch(i) == f0(i)))), ("cells written", Forall([I, I], lambda x, y: Implies(done(x, y), L.cell(ch, x, y)))), ("row separators written", Forall([I], lambda x: Implies(And(0 < x, Or(x < q, And(x == q, upto >= L.B(q)))), L.sep(ch, x)))), ("no terminator is written", Forall([I], lambda i: Implies(And(n0 <= i, i < n), plain_char(ch(i)))))]
    def loops(self):
        L = lambda E: E.ghost["L"]
        def inv1(E, env): q = zi(env.in_state); return [("row", And(0 <= q, q <= L(E).ns))] + self.common(E, q, z3.IntVal(0), z3.If(q == 0, L(E).B(0), L(E).B(q) - 1))
        def inv2(E, env): q, s = zi(env.in_state), zi(env.in_symbol); return [("cell", And(0 <= q, q < L(E).ns, 0 <= s, s <= L(E).nk))] + self.common(E, q, s, L(E).B(q) + 3 * s)
        def pre1(E, env): E.assume(L(E).base())
        def head1(E, env): E.assume(L(E).unf(zi(env.in_state)))
        def head2(E, env): q, s = zi(env.in_state), zi(env.in_symbol); E.assume(L(E).unf(q)); E.prove("cell is well-formed", cell_ok(L(E).t, L(E).ns, L(E).nk, q, s)) if False else None
        fr = lambda E, f: [(E.ghost["a"].outstream, x) for x in ("ch", "n")]
        return [Loop("rows", inv1, pre=pre1, head=head1, frame=fr, bind_unbound=lambda E, f, n, k: E.int(n)), Loop("cells", inv2, head=head2, frame=fr, bind_unbound=lambda E, f, n, k: E.int(n))]
    def post(self, E, old, a, r):
        L = E.ghost["L"]; return self.common(E, L.ns, z3.IntVal(0), L.B(L.ns) - 1)
    def apply_call(self, E, f, argv):
        tm, st = argv
        if not isinstance(st, Obj) or "log" not in st.fields: raise Unsupported("stream")
        E.setfield(st, "log", st.fields["log"] + (("tm", tm),))
# ---- input -------------------------------------------------------------------------
cstr = CC.cstr
def getline(E, a, kw):
    st, line = a
    if isinstance(st, Obj) and "taken" in st.fields:                 # lines that are skipped
        E.setfield(st, "taken", zi(st.fields["taken"]) + 1)
        for k in ("ch", "n", "v"): line.fields.pop(k, None)
        return E.bool("line")
    if not isinstance(st, Obj) or "line" not in st.fields or E.ghost.get("lines", 0): raise Unsupported("getline")
    E.ghost["lines"] = 1; ch, n = st.fields["line"]; E.setfield(line, "ch", ch); E.setfield(line, "n", n); E.setfield(line, "v", None); return E.ghost["more"]
class Read(Contract):
    """the next line begins with the text of a table; any rest begins with a
    terminator: the machine is made of exactly this table"""
    module = M; qualname = "ReadTuringMachine__istream_string"; params = ["instream", "base_name"]; feas_ms = 100
    def args(self, E):
        t = CE.Tab.fresh(E); ns, nk, N = E.int("ns"), E.int("nk"), E.int("line_length"); c = E.func("line", I, I); L = Lay(E, t, ns, nk, z3.IntVal(0)); T = L.B(ns) - 1
        E.ghost.update(L=L, T=T, N=N, ch=lambda i: c(i), more=E.bool("another_line"), marks=[T], R=E.func("row_mentioned", I, z3.BoolSort()), C=E.func("cell_mentioned", I, I, z3.BoolSort()))
        return NS(instream=Obj(E, "CStream", {"line": (E.ghost["ch"], N)}), base_name=cstr(E, ["b"], {}))
    def pre(self, E, a):
        g = E.ghost; L, T, N, ch = g["L"], g["T"], g["N"], g["ch"]; t, ns, nk = L.t, L.ns, L.nk
        return [("size", And(ns >= 1, nk >= 1, ns <= 25, nk <= 9)), ("cells of a well-formed table", Forall([I, I], lambda q, s: cell_ok(t, ns, nk, q, s), patterns=lambda q, s: [t.n(q, s)])), ("first row", L.base()), ("rows lie below", Forall([I], lambda x: Implies(And(0 <= x, x < ns), L.unf(x)), patterns=lambda x: [g["R"](x)])), ("the end lies above (by induction)", Forall([I], lambda x: Implies(And(0 <= x, x < ns), And(L.B(x) >= 0, L.B(x) + 3 * nk + 1 <= L.B(ns), Implies(x < ns - 1, L.B(x + 1) + 3 * nk + 1 <= L.B(ns)))), patterns=lambda x: [g["R"](x)])),
                ("cells", Forall([I, I], lambda q, s: Implies(And(0 <= q, q < ns, 0 <= s, s < nk), L.cell(ch, q, s)), patterns=lambda q, s: [g["C"](q, s)])), ("separators", Forall([I], lambda q: Implies(And(0 < q, q < ns), L.sep(ch, q)), patterns=lambda q: [g["R"](q)])), ("no terminator inside", Forall([I], lambda i: Implies(And(0 <= i, i < T), plain_char(ch(i))), patterns=lambda i: [ch(i)])), ("the rest of the line begins with a terminator", And(N >= T, Or(N == T, Or(*[ch(T) == x for x in TERM]))))]
    def modifies(self, E, a): return [(a.instream, None)]
    def same(self, E, tab, q, s): return tab.same(E.ghost["L"].t, q, s)
    def loops(self):
        G = lambda E: (E.ghost["L"], E.ghost["T"])
        def find(env, cls): return [v for v in env.fr.locals.values() if isinstance(v, Obj) and v.cls == cls][0]
        def line(E, env): F = env.line.fields; return ("the text is cut at its end", zi(F["n"]) == E.ghost["T"])
        def inv1(E, env):
            L, T = G(E); v = find(env, "VV").fields; q = zi(v["n"]); return [line(E, env), ("rows", And(0 <= q, q <= L.ns)), ("position", zi(env.i) == L.B(q)), ("full rows", Forall([I], lambda x: Implies(And(0 <= x, x < q), v["len"](x) == L.nk))), ("cells read", Forall([I, I], lambda x, y: Implies(And(0 <= x, x < q, 0 <= y, y < L.nk), self.same(E, v["tab"], x, y))))]
        def inv2(E, env):
            L, T = G(E); v = find(env, "VV").fields; q = zi(v["n"]); r = find(env, "RV").fields; s = zi(r["n"]); return [line(E, env), ("row", And(0 <= q, q < L.ns, 0 <= s, s <= L.nk)), ("position", zi(env.i) == L.B(q) + 3 * s), ("cells of the row", Forall([I], lambda y: Implies(And(0 <= y, y < s), And(r["tab"].w(0, y) == L.t.w(q, y), r["tab"].d(0, y) == L.t.d(q, y), r["tab"].n(0, y) == L.t.n(q, y), r["tab"].u(0, y) == L.t.u(q, y)))))]
        def inst(E, q, s=None):
            L, T = G(E); ch = E.ghost["ch"]; out = [Implies(And(0 <= q, q < L.ns), And(L.unf(q), L.B(q) >= 0, L.B(q) + 3 * L.nk + 1 <= L.B(L.ns))), Implies(And(0 <= q, q + 1 < L.ns), And(L.B(q + 1) + 3 * L.nk + 1 <= L.B(L.ns), L.sep(ch, q + 1)))]
            if s is not None: out += [cell_ok(L.t, L.ns, L.nk, q, s), Implies(And(0 <= q, q < L.ns, 0 <= s, s < L.nk), L.cell(ch, q, s))]
            E.assume([E.ghost["R"](q), E.ghost["R"](q + 1)] + ([E.ghost["C"](q, s)] if s is not None else []))   # matching hints, no content
            for x in out: E.prove("the line is the text of the table (instance)", x)
        def head1(E, env): inst(E, zi(find(env, "VV").fields["n"]))
        def head2(E, env): inst(E, zi(find(env, "VV").fields["n"]), zi(find(env, "RV").fields["n"]))
        fr1 = lambda E, fr: [(v, x) for v in fr.locals.values() if isinstance(v, Obj) and v.cls == "VV" for x in ("tab", "n", "len")]
        fr2 = lambda E, fr: [(v, x) for v in fr.locals.values() if isinstance(v, Obj) and v.cls == "RV" for x in ("tab", "n")]
        bu = lambda E, fr, n, k: Opaque(n)
        return [Loop("rows", inv1, head=head1, frame=fr1, bind_unbound=bu), Loop("cells", inv2, head=head2, frame=fr2, bind_unbound=bu, havoc_local=lambda E, fr, n: fr.locals[n] if isinstance(fr.locals[n], Obj) and fr.locals[n].cls in ("VV", "RV", "CStr") else Opaque(n) if isinstance(fr.locals[n], Obj) else MISSING)]
    def post(self, E, old, a, r):
        L = E.ghost["L"]; more = zb(E.ghost["more"])
        if r is None: return [("no machine only at the end of the input", Not(more))]
        if not isinstance(r, Obj) or "__made__" not in r.fields: raise Unsupported("result")
        v = r.fields["__made__"].fields; return [("a machine for every line", more), ("size", And(zi(v["n"]) == L.ns)), ("row sizes", Forall([I], lambda q: Implies(And(0 <= q, q < L.ns), v["len"](q) == L.nk))), ("the table is the one that was written", Forall([I, I], lambda q, s: Implies(And(0 <= q, q < L.ns, 0 <= s, s < L.nk), self.same(E, v["tab"], q, s))))]
    def apply_call(self, E, f, argv):
        st = argv[0]
        if not isinstance(st, Obj) or "taken" not in st.fields: raise Unsupported("stream")
        E.setfield(st, "taken", zi(st.fields["taken"]) + 1); return E.new(M, "TuringMachine", __line__=st.fields["taken"])
class Ends(Lemma):
    """the layout facts Read assumes of its line"""
    name = "rows of a text end below its end"
    def obligations(self, E):
        ns, nk, x = E.int("ns"), E.int("nk"), E.int("x"); L = Lay(E, None, ns, nk, z3.IntVal(0)); E.assume([ns >= 1, nk >= 1, x >= 0, L.base()])
        E.induct("rows are ordered", ns, lambda k: And(L.B(k) >= 0, Implies(x < k, L.B(x) + 3 * nk + 1 <= L.B(k))), unfold=lambda k: And(L.unf(k), Implies(x == k, L.B(x) == L.B(k))))
CONTRACTS = [Write(), Read()]
LEMMAS = ["Ends"]
EXTS = dict(CE.EXTS); EXTS.update({("builtin", "cpp_out_str"): out_str, ("builtin", "cpp_out_int"): out_int, ("builtin", "cpp_out_char"): out_char, ("CStream", "havoc"): stream_havoc, ("builtin", "cpp_getline"): getline, ("builtin", "cpp_npos"): lambda E, a, kw: z3.IntVal(-1), ("builtin", "cpp_bool"): cbool})
