"""Transition tables as abstract maps (state, symbol) -> (condition, symbol,
direction, next state); shared by the enumeration, normal-form and encoding
contracts.  `tm.trans_table[q][s]` reads and stores go through these maps, so
the real code's own indexing is what is executed."""
import z3
from pyvc.engine import *
from pyvc.contract import *
TMM = "Macro.Turing_Machine"; I = z3.IntSort(); B = z3.BoolSort()
COND = ["Running", "Halt", "Undefined"]
RUNNING, HALT, UNDEF, NONE = 0, 1, 2, 3

class Tab:
    """a snapshot: closures c, w, d, n over (state, symbol)"""
    def __init__(self, c, w, d, n): self.c, self.w, self.d, self.n = c, w, d, n
    def put(self, q, s, c, w, d, n):
        at = lambda a, b: And(a == q, b == s)
        o = self
        return Tab(lambda a, b: Ite(at(a, b), c, o.c(a, b)), lambda a, b: Ite(at(a, b), w, o.w(a, b)), lambda a, b: Ite(at(a, b), d, o.d(a, b)), lambda a, b: Ite(at(a, b), n, o.n(a, b)))
    def same(self, o, q, s): return And(self.c(q, s) == o.c(q, s), self.w(q, s) == o.w(q, s), self.d(q, s) == o.d(q, s), self.n(q, s) == o.n(q, s))
def fresh_tab(E, name, ns, nk):
    c, w, d, n = [E.func(name + "_" + x, I, I, I) for x in ("cond", "write", "dir", "next")]
    t = Tab(lambda a, b: c(a, b), lambda a, b: w(a, b), lambda a, b: d(a, b), lambda a, b: n(a, b))
    return t
def wf_cell(t, q, s, ns, nk, lr=True):
    """condition code and ranges of one cell, as tm_from_quintuples builds them"""
    return And(t.c(q, s) >= 0, t.c(q, s) <= 2, t.w(q, s) >= 0, Implies(t.c(q, s) != UNDEF, t.w(q, s) < nk) if nk is not None else True, t.d(q, s) >= 0, t.d(q, s) <= (1 if lr else 2),
               Implies(t.c(q, s) == RUNNING, And(t.n(q, s) >= 0, t.n(q, s) < ns)), Implies(t.c(q, s) != RUNNING, t.n(q, s) == -1), Implies(t.c(q, s) == UNDEF, And(t.w(q, s) == 1, t.d(q, s) == 1)))
def mk_tm(E, name="T", tab=None, ns=None, nk=None):
    ns = ns if ns is not None else E.int("num_states"); nk = nk if nk is not None else E.int("num_symbols"); E.assume([ns >= 1, nk >= 1])
    t = Obj(E, "Table", {"tab": tab or fresh_tab(E, name, ns, nk), "ns": ns, "nk": nk, "wfc": True})
    tm = E.new(TMM, "Simple_Machine", trans_table=t, num_states=ns, num_symbols=nk, states=Opaque("states"), symbols=Opaque("symbols"), init_symbol=0, init_dir=1, init_state=0)
    return tm
def tab_of(tm): return tm.fields["trans_table"].fields["tab"]
def idx(E, k, n):
    k = zi(k)
    if E.branch(And(k >= 0, k < zi(n))): return k
    if E.branch(And(k < 0, k >= -zi(n))): return k + zi(n)
    raise PyRaise("IndexError")
def table_get(E, o, q): return Obj(E, "Row", {"table": o, "q": idx(E, q, o.fields["ns"])})
def row_get(E, o, s):
    T = o.fields["table"]; q = o.fields["q"]; s = idx(E, s, T.fields["nk"]); t = T.fields["tab"]
    if T.fields["wfc"]: E.assume(wf_cell(t, q, s, zi(T.fields["ns"]), zi(T.fields["nk"])))
    if T.fields.get("nullable") and E.branch(t.c(q, s) == NONE): return None
    for i in (2, 1, 0):
        if i == 0 or E.branch(t.c(q, s) == i):
            r = E.new(TMM, "Transition", condition=COND[i], condition_details=Opaque("details"), symbol_out=t.w(q, s), state_out=t.n(q, s), dir_out=t.d(q, s), num_base_steps=1, states_last_seen=Opaque("last_seen"))
            r.meta["cell"] = (T, q, s); return r
def row_set(E, o, s, v):
    T = o.fields["table"]; q = o.fields["q"]; s = idx(E, s, T.fields["nk"])
    if not (isinstance(v, Obj) and getattr(v.cls, "name", "") == "Transition"): raise Unsupported("table store of %r" % (v,))
    f = v.fields
    if f["condition"] not in COND: E.prove("stored condition is one of a machine's", False)
    E.ghost.setdefault("stored", []).append((T, q, s, v))
    T.meta["cells"] = T.meta.get("cells", []) + [(q, s, v)]
    if T.fields.get("sane"):
        for lab, c in store_sane(E, v, q): E.prove("stored transition: " + lab, c)
        if f["condition"] != "Running":
            cd = f["condition_details"]; ok = isinstance(cd, PyList) and len(cd.items) == 1 and isinstance(cd.items[0], tuple) and len(cd.items[0]) == 2
            E.prove("stored transition: details name the halting cell", And(zi(cd.items[0][0]) == s, zi(cd.items[0][1]) == q) if ok else False)
    E.setfield(T, "tab", T.fields["tab"].put(q, s, COND.index(f["condition"]), zi(f["symbol_out"]), zi(f["dir_out"]), zi(f["state_out"])))
    E.setfield(T, "wfc", False)
def store_sane(E, v, q):
    """metadata of a stored transition: one base step, one state, seen at 0"""
    f = v.fields; out = [("one base step", zi(f["num_base_steps"]) == 1)]
    ls = f["states_last_seen"]
    if isinstance(ls, PyDict) and len(ls.d) == 1:
        k, x = list(ls.d.items())[0]; out += [("last seen: only the state itself", zi(E.unkey(k)) == zi(q)), ("last seen at step 0", zi(x) == 0)]
    else: out.append(("last seen: one state", False))
    return out
def deepcopy(E, o, memo=None):
    if isinstance(o, Obj):
        if o.cls == "Table": return Obj(E, "Table", dict(o.fields))
        r = Obj(E, o.cls, {}); r.meta = dict(o.meta)
        for k, v in o.fields.items(): r.fields[k] = deepcopy(E, v)
        return r
    if isinstance(o, PyList): return PyList(E, [deepcopy(E, x) for x in o.items], o.kind)
    if isinstance(o, PyDict): return PyDict(E, dict(o.d))
    return o
def table_iter(E, o): return o.fields["ns"], lambda k: table_get(E, o, k)
def row_iter(E, o): return o.fields["table"].fields["nk"], lambda k: row_get(E, o, k)
def table_havoc(E, o, field):
    if field == "tab": o.fields["tab"] = fresh_tab(E, "H", o.fields["ns"], o.fields["nk"]); return True
    if field == "wfc": o.fields["wfc"] = False; return True
    return False
EXTS = {("Table", "havoc"): table_havoc, ("Table", "iter"): table_iter, ("Row", "iter"): row_iter, ("Table", "len"): lambda E, o: o.fields["ns"], ("Row", "len"): lambda E, o: o.fields["table"].fields["nk"], ("Table", "getitem"): table_get, ("Row", "getitem"): row_get, ("Row", "setitem"): row_set, ("external", "copy.deepcopy"): deepcopy}
