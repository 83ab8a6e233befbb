"""Contracts of Code/TM_Enum.py, Code/Enumerate.py and the record methods the
enumeration uses: which children are produced and that every machine taken
from the queue is written exactly once."""
from .ttable import *
M = "TM_Enum"

def mk_te(E, allow=None):
    tm = mk_tm(E)
    return E.new(M, "TM_Enum", tm=tm, allow_no_halt=allow if allow is not None else E.bool("allow"))
def no_em(a, b, d): return z3.BoolVal(False)

class Metrics:
    """max next state / max written symbol / number undefined / any defined,
    over the cells in row-major order (order is irrelevant for max and count)"""
    def __init__(self, E, t, ns, nk):
        self.E, self.t, self.ns, self.nk = E, t, ns, nk
        self.f = {n: (E.func(n + "_row", I, I), E.func(n, I, I, I)) for n in ("maxst", "maxsy", "undef", "defd")}
        for r, c in self.f.values(): E.assume(r(0) == 0)
    def row(self, n, q): return self.f[n][0](q)
    def at(self, n, q, s): return self.f[n][1](q, s)
    def unfold(self, q, s):
        t = self.t; mx = lambda a, b: Ite(b > a, b, a); df = t.c(q, s) != UNDEF
        out = [wf_cell(t, q, s, self.ns, self.nk)]
        for n in self.f:
            r, c = self.f[n]
            out += [c(q, 0) == r(q), r(q + 1) == c(q, self.nk)]
        v = lambda n: self.at(n, q, s); w = lambda n: self.at(n, q, s + 1)
        out += [w("maxst") == Ite(df, mx(v("maxst"), t.n(q, s)), v("maxst")), w("maxsy") == Ite(df, mx(v("maxsy"), t.w(q, s)), v("maxsy")),
                w("undef") == v("undef") + Ite(df, 0, 1), w("defd") == Ite(df, 1, v("defd"))]
        return And(*out)

class EnumChildren(Contract):
    """Every transition tree normal form allows at the cell, each exactly once,
    each in a machine of its own equal to the parent elsewhere."""
    module = M; qualname = "TM_Enum.enum_children"; params = ["self", "state_in", "symbol_in"]
    def args(self, E):
        te = mk_te(E); tm = te.fields["tm"]; q, s = E.int("q"), E.int("s")
        em = Obj(E, "Emit", {"em": no_em, "count": z3.IntVal(0)}); E.ghost["em"] = em
        E.ghost["m"] = Metrics(E, tab_of(tm), zi(tm.fields["num_states"]), zi(tm.fields["num_symbols"])); E.ghost["cell"] = (q, s); E.ghost["te"] = te
        E.ghost["on_yield"] = self.on_yield; E.ghost["yielded"] = []
        return NS(self=te, state_in=q, symbol_in=s)
    def pre(self, E, a):
        tm = a.self.fields["tm"]; q, s = zi(a.state_in), zi(a.symbol_in)
        return [("cell of the table", And(0 <= q, q < zi(tm.fields["num_states"]), 0 <= s, s < zi(tm.fields["num_symbols"]))), ("cell is undefined", tab_of(tm).c(q, s) == UNDEF)]
    def old(self, E, a): return NS(tab=tab_of(a.self.fields["tm"]), ns=zi(a.self.fields["tm"].fields["num_states"]), nk=zi(a.self.fields["tm"].fields["num_symbols"]))
    def modifies(self, E, a): return [(E.ghost["em"], None)]
    # the set of allowed triples
    def limits(self, E):
        m = E.ghost["m"]; mn = lambda a, b: Ite(b < a, b, a)
        return mn(m.ns, m.row("maxst", m.ns) + 2), mn(m.nk, m.row("maxsy", m.ns) + 2), m.row("defd", m.ns) == 1
    def allowed(self, E, st, sy, d):
        a, b, df = self.limits(E); m = E.ghost["m"]; te = E.ghost["te"]
        return And(Or(E.truth(te.fields["allow_no_halt"]), m.row("undef", m.ns) > 1), 0 <= st, st < a, 0 <= sy, sy < b, d <= 1, d >= Ite(df, 0, 1))
    def on_yield(self, E, v):
        te = E.ghost["te"]; q, s = E.ghost["cell"]; em = E.ghost["em"]
        if not (isinstance(v, Obj) and getattr(v.cls, "name", "") == "TM_Enum"): raise Unsupported("yielded %r" % (v,))
        tm = v.fields["tm"]; t0, t1 = tab_of(te.fields["tm"]), tab_of(tm)
        E.prove("child is a machine of its own", v is not te and tm is not te.fields["tm"] and tm.fields["trans_table"] is not te.fields["tm"].fields["trans_table"] and v not in E.ghost["yielded"])
        for la in E.loop_active: E.prove("child is made anew for each transition", tm.fields["trans_table"].oid > la["oid_limit"] and tm.oid > la["oid_limit"])
        E.ghost["yielded"].append(v)
        E.prove("child keeps the option to have no halt", E.truth(v.fields["allow_no_halt"]) == E.truth(te.fields["allow_no_halt"]) if not isinstance(v.fields["allow_no_halt"], bool) else zb(v.fields["allow_no_halt"]) == zb(E.truth(te.fields["allow_no_halt"])))
        E.prove("child has the same size", And(zi(tm.fields["num_states"]) == E.ghost["m"].ns, zi(tm.fields["num_symbols"]) == E.ghost["m"].nk))
        E.prove("rest of the table is the parent's", Forall([I, I], lambda a, b: Implies(Or(a != q, b != s), t1.same(t0, a, b))))
        E.prove("new transition is a running one", t1.c(q, s) == RUNNING)
        for cq, cs, tr in tm.fields["trans_table"].meta.get("cells", []):
            for lab, c in store_sane(E, tr, cq): E.prove("child's transition: " + lab, c)
        tri = (t1.n(q, s), t1.w(q, s), t1.d(q, s))
        E.prove("transition is allowed by tree normal form", self.allowed(E, *tri))
        old = em.fields["em"]
        E.prove("transition not produced before", Not(old(*tri)))
        E.setfield(em, "em", lambda a, b, d: Or(old(a, b, d), And(a == tri[0], b == tri[1], d == tri[2])))
    def loops(self):
        def names(E, env, q, s):
            m = E.ghost["m"]; f = (lambda n: m.row(n, q)) if s is None else (lambda n: m.at(n, q, s))
            d = env.is_a_trans_defined
            return [("largest next state", zi(env.max_state) == f("maxst")), ("largest symbol", zi(env.max_symbol) == f("maxsy")), ("undefined cells", zi(env.num_undefined_transitions) == f("undef")),
                    ("a transition is defined", f("defd") == Ite(zb(d), 1, 0)), ("non-negative", And(f("maxst") >= 0, f("maxsy") >= 0))]
        def rows(E, env): return names(E, env, zi(env.extra["k"]), None)
        def rhead(E, env): E.ghost["rq"] = zi(env.extra["k"]); E.assume(E.ghost["m"].unfold(zi(env.extra["k"]), z3.IntVal(0)))
        def cells(E, env): return names(E, env, E.ghost["rq"], zi(env.extra["k"]))
        def chead(E, env): E.assume(E.ghost["m"].unfold(E.ghost["rq"], zi(env.extra["k"])))
        def cpre(E, env): E.assume(E.ghost["m"].unfold(E.ghost["rq"], z3.IntVal(0)))
        def emit(part):
            def inv(E, env):
                em = E.ghost["em"].fields["em"]; k = zi(env.extra["k"]); src = env.extra["src"]; e0 = E.ghost["em0" + part]
                def want(a, b, d):
                    x = (a, b)[int(part)]
                    new = And(x >= 0, x < zi(src.at(k)) , self.allowed(E, a, b, d)) if part == "0" else And(a == E.ghost["st"], x >= 0, x < zi(src.at(k)), self.allowed(E, a, b, d))
                    return Or(e0(a, b, d), new)
                return [("exactly the triples so far", Forall([I, I, I], lambda a, b, d: em(a, b, d) == want(a, b, d)))]
            return inv
        def pre0(E, env): E.ghost["em00"] = E.ghost["em"].fields["em"]
        def start0(E, env): E.ghost["st"] = zi(env.extra["src"].at(zi(env.extra["k"])))
        def pre1(E, env): E.ghost["em01"] = E.ghost["em"].fields["em"]
        def hv(E, fr, o, f):
            if o is E.ghost["em"]:
                if f == "em":
                    g = E.func("em", I, I, I, B); o.fields["em"] = lambda a, b, d: g(a, b, d)
                return True
            return False
        return [Loop("rows", rows, head=rhead), Loop("cells", cells, head=chead, pre=cpre), Loop("states", emit("0"), pre=pre0, body_start=start0, havoc_heap=hv), Loop("symbols", emit("1"), pre=pre1, havoc_heap=hv)]
    def post(self, E, old, a, r):
        em = E.ghost["em"].fields["em"]; t1 = tab_of(a.self.fields["tm"])
        return [("exactly the allowed transitions, each once", Forall([I, I, I], lambda x, y, d: em(x, y, d) == self.allowed(E, x, y, d))), ("the parent is unchanged", Forall([I, I], lambda x, y: t1.same(old.tab, x, y)))]
    def apply_call(self, E, f, argv):
        a = NS(**dict(zip(self.params, argv)))
        for lab, c in self.pre(E, a): E.prove("call enum_children: " + lab, c, "pre")
        n = E.int("children"); E.assume(n >= 0); te = a.self
        return SymSeq(E, lambda i: Obj(E, "Child", {"of": te, "i": zi(i)}), n, "list")
class SetTrans(Contract):
    module = M; qualname = "TM_Enum.set_trans"; params = ["self", "state_in", "symbol_in", "symbol_out", "dir_out", "state_out"]; inline = True
    def args(self, E):
        te = mk_te(E); return NS(self=te, state_in=E.int("q"), symbol_in=E.int("s"), symbol_out=E.int("w"), dir_out=E.int("d"), state_out=E.int("n"))
    def pre(self, E, a):
        tm = a.self.fields["tm"]; return [("cell of the table", And(0 <= a.state_in, a.state_in < zi(tm.fields["num_states"]), 0 <= a.symbol_in, a.symbol_in < zi(tm.fields["num_symbols"])))]
    def old(self, E, a): return NS(tab=tab_of(a.self.fields["tm"]), T=a.self.fields["tm"].fields["trans_table"])
    def modifies(self, E, a): T = a.self.fields["tm"].fields["trans_table"]; return [(T, "tab"), (T, "wfc")]
    def want(self, a): return RUNNING, a.symbol_out, a.dir_out, a.state_out
    def post(self, E, old, a, r):
        t = tab_of(a.self.fields["tm"]); q, s = a.state_in, a.symbol_in; c, w, d, n = self.want(a)
        out = [("the cell is the given transition", And(t.c(q, s) == c, t.w(q, s) == w, t.d(q, s) == d, t.n(q, s) == n)), ("no other cell changes", Forall([I, I], lambda x, y: Implies(Or(x != q, y != s), t.same(old.tab, x, y))))]
        for cq, cs, tr in old.T.meta.get("cells", []): out += store_sane(E, tr, cq)
        return out
class SetHalt(SetTrans):
    qualname = "TM_Enum.set_halt_trans"; params = ["self", "state_in", "symbol_in"]
    def args(self, E): te = mk_te(E); return NS(self=te, state_in=E.int("q"), symbol_in=E.int("s"))
    def want(self, a): return HALT, 1, 1, -1

# ---- Enumerate.py ------------------------------------------------------------
EN = "Enumerate"; RM = "IO.TM_Record"
class StdHalt(Contract):
    """marks the halting cell and stores the table again"""
    module = RM; qualname = "TM_Record.standardize_halt_trans"; params = ["self"]
    def args(self, E):
        r = mk_record(E, tme=mk_te(E)); h = r.fields["proto"].fields["status"].fields["halt_status"]; E.assume([zb(h.fields["is_decided"]), zb(h.fields["is_halting"])]); return NS(self=r)
    def pre(self, E, a):
        h = a.self.fields["proto"].fields["status"].fields["halt_status"]; tm = a.self.fields["tme"].fields["tm"]; q, s = zi(h.fields["from_state"]), zi(h.fields["from_symbol"])
        return [("a halting record", And(zb(h.fields["is_decided"]), zb(h.fields["is_halting"]))), ("cell of the table", And(0 <= q, q < zi(tm.fields["num_states"]), 0 <= s, s < zi(tm.fields["num_symbols"])))]
    def old(self, E, a):
        h = a.self.fields["proto"].fields["status"].fields["halt_status"]
        return NS(tab=tab_of(a.self.fields["tme"].fields["tm"]), q=zi(h.fields["from_state"]), s=zi(h.fields["from_symbol"]), tm=a.self.fields["tme"].fields["tm"])
    def modifies(self, E, a):
        T = a.self.fields["tme"].fields["tm"].fields["trans_table"]; return [(T, "tab"), (T, "wfc"), (a.self.fields["proto"].fields["tm"], None)]
    def post(self, E, old, a, r):
        t = tab_of(a.self.fields["tme"].fields["tm"]); q, s = old.q, old.s; enc = a.self.fields["proto"].fields["tm"].fields.get("enc")
        out = [("the cell halts", And(t.c(q, s) == HALT, t.w(q, s) == 1, t.d(q, s) == 1, t.n(q, s) == -1)), ("no other cell changes", Forall([I, I], lambda x, y: Implies(Or(x != q, y != s), t.same(old.tab, x, y))))]
        if enc is None: return out + [("the stored table is rewritten", False)]
        return out + [("the stored table is the new one", Forall([I, I], lambda x, y: enc.same(t, x, y)))]
    def apply_call(self, E, f, argv):
        a = NS(self=argv[0])
        if a.self.fields["tme"] is None: raise Unsupported("record without machine")
        for lab, c in self.pre(E, a): E.prove("call standardize_halt_trans: " + lab, c, "pre")
        old = self.old(E, a); T = old.tm.fields["trans_table"]
        E.setfield(T, "tab", old.tab.put(old.q, old.s, HALT, 1, 1, -1)); E.setfield(T, "wfc", False); E.setfield(a.self.fields["proto"].fields["tm"], "enc", T.fields["tab"])
class WriteTM(Contract):
    module = RM; qualname = "write_tm"; params = ["tm", "proto_tm"]; assumed = True; why = "stores the table losslessly: verified for C17"
    def apply_call(self, E, f, argv): E.setfield(argv[1], "enc", tab_of(argv[0]))
class TmEnumOf(Contract):
    module = RM; qualname = "TM_Record.tm_enum"; params = ["self"]; assumed = True; why = "decodes the stored table (C17) or returns the cached object"
    def apply_call(self, E, f, argv):
        if argv[0].fields["tme"] is None: E.setfield(argv[0], "tme", E.ghost["tme"])
        return argv[0].fields["tme"]
class RecInit(Contract):
    module = RM; qualname = "TM_Record.__init__"; params = ["self", "proto", "tm_enum"]; assumed = True; why = "constructor stores the machine (C17/C18)"
    def apply_call(self, E, f, argv): E.setfield(argv[0], "tme", argv[2]); E.setfield(argv[0], "proto", argv[1])
def mk_record(E, tme=None):
    h = Obj(E, "PB", {"is_decided": E.bool("dec"), "is_halting": E.bool("halting"), "from_state": E.int("q"), "from_symbol": E.int("s")}); qh = Obj(E, "PB", {"is_decided": E.bool("qdec"), "is_quasihalting": E.bool("qh")})
    pr = Obj(E, "PB", {"status": Obj(E, "PB", {"halt_status": h, "quasihalt_status": qh}), "tm": Obj(E, "PB", {}), "filter": Obj(E, "PB", {})})
    return E.new(RM, "TM_Record", proto=pr, tme=tme)
def mk_enumerator(E):
    ev = Obj(E, "Events", {"w": z3.IntVal(0), "p": z3.IntVal(0)}); E.ghost["ev"] = ev; E.ghost["written"] = []; E.ghost["pushed"] = []
    return E.new(EN, "Enumerator", tm_num=E.int("tm_num"), num_halt=E.int("nh"), num_inf_quasi_unknown=E.int("nq"), num_quasihalt=E.int("nqh"), num_infinite=E.int("ni"), num_unknown=E.int("nu"),
                 randomize=E.bool("rnd"), random=Obj(E, "Rng", {}), stack=Obj(E, "Queue", {}), writer=Obj(E, "Wr", {}), options=Obj(E, "Opt", {"num_enum": E.int("num_enum"), "debug_print_current": E.bool("dbg")}),
                 pout=Obj(E, "Out", {}), save_freq=E.int("sf"), max_sim_time_s=Opaque("t"), start_time=Opaque("t"))
def wr_attr(E, o, name):
    if name == "write_record":
        def f(E, rec):
            E.ghost["written"].append((rec, rec.fields["proto"].fields["tm"].fields.get("enc") if isinstance(rec, Obj) and "proto" in rec.fields else None, len(E.ghost["pushed"]))); E.setfield(E.ghost["ev"], "w", E.ghost["ev"].fields["w"] + 1)
        return f
    if name == "flush": return lambda E: None
    raise Unsupported("writer." + name)
def q_attr(E, o, name):
    if name == "push_jobs": return lambda E, js: E.ghost["pushed"].append(("many", js))
    if name == "push_job": return lambda E, j: E.ghost["pushed"].append(("one", j))
    if name == "pop_job": return lambda E: pop(E)
    raise Unsupported("queue." + name)
JOB = z3.DeclareSort("JobId")
def pop(E):
    ev = E.ghost["ev"]
    if E.choose(2) == 0: E.setfield(ev, "empty", True); return None
    k = ev.fields["p"]; E.setfield(ev, "p", k + 1); r = Obj(E, "JobRec", {"id": k}); return r
def rng_attr(E, o, name):
    if name == "shuffle": return lambda E, xs: E.ghost.__setitem__("shuffled", xs)      # a permutation of the same jobs
    raise Unsupported("random." + name)
class AddResult(Contract):
    """writes the record exactly once; a halting one is first expanded: all
    children of its undefined cell are pushed, then the cell is marked halting"""
    module = EN; qualname = "Enumerator.add_result"; params = ["self", "tm_record"]
    def args(self, E):
        te = mk_te(E); E.ghost["tme"] = te; r = mk_record(E, tme=E.case(None, te)); h = r.fields["proto"].fields["status"].fields["halt_status"]; q, s = h.fields["from_state"], h.fields["from_symbol"]
        return NS(self=mk_enumerator(E), tm_record=r)
    def pre(self, E, a):
        te = E.ghost["tme"]; h = a.tm_record.fields["proto"].fields["status"].fields["halt_status"]; tm = te.fields["tm"]; q, s = zi(h.fields["from_state"]), zi(h.fields["from_symbol"])
        return [("the halting cell is an undefined cell of the table", Implies(And(zb(h.fields["is_decided"]), zb(h.fields["is_halting"])), And(0 <= q, q < zi(tm.fields["num_states"]), 0 <= s, s < zi(tm.fields["num_symbols"]), tab_of(tm).c(q, s) == UNDEF)))]
    COUNTS = ["num_halt", "num_inf_quasi_unknown", "num_quasihalt", "num_infinite", "num_unknown"]
    def old(self, E, a): return NS(tab=tab_of(E.ghost["tme"].fields["tm"]), n=zi(a.self.fields["tm_num"]), s=sum([zi(a.self.fields[c]) for c in self.COUNTS]), c={c: zi(a.self.fields[c]) for c in self.COUNTS})
    def modifies(self, E, a):
        T = E.ghost["tme"].fields["tm"].fields["trans_table"]
        return [(a.self, c) for c in self.COUNTS + ["tm_num"]] + [(E.ghost["ev"], None), (T, "tab"), (T, "wfc"), (a.tm_record.fields["proto"].fields["tm"], None), (a.tm_record, "tme")]
    def post(self, E, old, a, r):
        h = a.tm_record.fields["proto"].fields["status"].fields["halt_status"]; qh = a.tm_record.fields["proto"].fields["status"].fields["quasihalt_status"].fields
        halting = And(zb(h.fields["is_decided"]), zb(h.fields["is_halting"])); w, pu = E.ghost["written"], E.ghost["pushed"]; te = E.ghost["tme"]; q, s = zi(h.fields["from_state"]), zi(h.fields["from_symbol"]); f = a.self.fields
        out = [("the record is written exactly once", len(w) == 1 and w[0][0] is a.tm_record), ("counted once", And(zi(f["tm_num"]) == old.n + 1, sum([zi(f[c]) for c in self.COUNTS]) == old.s + 1)),
               ("halting counted as halting", Implies(halting, zi(f["num_halt"]) == old.c["num_halt"] + 1)), ("undecided counted as unknown", Implies(Not(zb(h.fields["is_decided"])), zi(f["num_unknown"]) == old.c["num_unknown"] + 1))]
        calls = E.ghost.get("kids", [])
        if pu: out.append(("children only of a halting machine", halting))
        if len(w) == 1: out.append(("children are pushed before the record is written", w[0][2] == len(pu)))
        if not pu:
            out.append(("nothing pushed: not halting, or no child", Or(Not(halting), calls[0].length == 0) if calls else Not(halting)))
        else:
            js = pu[0][1]; ok = len(pu) == 1 and pu[0][0] == "many" and isinstance(js, SymSeq) and len(calls) == 1
            out.append(("all children in one push", ok))
            if ok:
                i = E.int("i"); E.assume([i >= 0, i < zi(calls[0].length)]); j = js.get(i)
                out += [("as many jobs as children", zi(js.length) == zi(calls[0].length)), ("job i is child i of this machine", And(zi(j.fields["tme"].fields["i"]) == i) if isinstance(j, Obj) and isinstance(j.fields.get("tme"), Obj) and j.fields["tme"].cls == "Child" and j.fields["tme"].fields["of"] is te else False)]
        if len(w) == 1:
            t = tab_of(te.fields["tm"])
            out.append(("a halting record is written with its halting transition", Implies(halting, And(t.c(q, s) == HALT)) if w[0][1] is None else Implies(halting, And(w[0][1].c(q, s) == HALT, w[0][1].w(q, s) == 1, w[0][1].d(q, s) == 1))))
            if w[0][1] is None: out.append(("table stored again after marking the halt", Not(halting)))
        return out
    def apply_call(self, E, f, argv):
        rec = argv[1]; ev = E.ghost["ev"]
        E.setfield(ev, "w", ev.fields["w"] + 1); E.ghost["written"].append((rec, None, 0)); E.prove("each job is added right after it was taken", zi(rec.fields["id"]) + 1 == ev.fields["p"])
        E.setfield(argv[0], "tm_num", zi(argv[0].fields["tm_num"]) + 1)
class KidsHook(EnumChildren):
    pass
class RunC(Contract):
    module = EN; qualname = "Enumerator.run"; params = ["self", "tm_record"]; assumed = True; why = "runs the deciders; changes only the record's results (C21)"
    def apply_call(self, E, f, argv): return argv[1]
class SaveC(Contract):
    module = EN; qualname = "Enumerator.save"; params = ["self"]; assumed = True; why = "statistics output and flush only"
    def apply_call(self, E, f, argv): return None
class ContinueEnum(Contract):
    """every job taken from the queue is added (hence written) exactly once;
    without a limit it stops only when the queue is empty, and with a limit it
    drains the queue into the output"""
    module = EN; qualname = "Enumerator.continue_enum"; params = ["self"]
    def args(self, E):
        a = NS(self=mk_enumerator(E)); ev = E.ghost["ev"]; ev.fields["empty"] = False; E.assume([zi(a.self.fields["save_freq"]) >= 1]); return a
    def modifies(self, E, a): return [(E.ghost["ev"], None), (a.self, "tm_num"), (a.self, "max_sim_time_s"), (a.self, "start_time")]
    def loops(self):
        def inv(E, env):
            ev = E.ghost["ev"].fields; return [("every job taken was written", ev["w"] == ev["p"])]
        def inv2(E, env):
            ev = E.ghost["ev"].fields; r = [v for v in env.fr.locals.values() if isinstance(v, Obj) and v.cls == "JobRec"]
            rec = env.tm_record
            if rec is None: return [("every job taken was written", ev["w"] == ev["p"])]
            return [("every job taken but the current one was written", ev["w"] + 1 == ev["p"]), ("the current job is the last taken", zi(rec.fields["id"]) + 1 == ev["p"])]
        def hl(E, fr, n):
            v = fr.locals[n]
            if n in fr.locals and (v is None or isinstance(v, Obj) and v.cls == "JobRec"):
                return Obj(E, "JobRec", {"id": E.int("id")}) if E.choose(2) == 0 else None
            if isinstance(v, Opaque): return Opaque("t")
            return MISSING
        def hh(E, fr, o, f):
            if o is E.ghost["ev"]:
                if f == "empty": o.fields[f] = False; return True
            if isinstance(o, Obj) and isinstance(o.fields.get(f), Opaque): return True
            return False
        def h2(E, env):
            if env.tm_record is None: E.setfield(E.ghost["ev"], "empty", True)
        return [Loop("run", inv, havoc_local=hl, havoc_heap=hh), Loop("drain", inv2, havoc_local=hl, havoc_heap=hh, head=h2)]
    def post(self, E, old, a, r):
        ev = E.ghost["ev"].fields; lim = zi(a.self.fields["options"].fields["num_enum"])
        return [("every job taken was written exactly once", ev["w"] == ev["p"]), ("stops only when the queue is empty", ev["empty"] is True)]
CONTRACTS = [EnumChildren(), SetTrans(), SetHalt(), StdHalt(), WriteTM(), TmEnumOf(), RecInit(), AddResult(), RunC(), SaveC(), ContinueEnum()]
_ec = CONTRACTS[0].apply_call
def _rec(E, f, argv):
    r = _ec(E, f, argv); E.ghost.setdefault("kids", []).append(r); return r
CONTRACTS[0].apply_call = _rec
EXTS = dict(EXTS)
EXTS.update({("Wr", "attr"): wr_attr, ("Queue", "attr"): q_attr, ("Rng", "attr"): rng_attr, ("Out", "attr"): lambda E, o, n: (lambda E, *a: None), ("JobRec", "truth"): lambda E, o: True,
             ("JobRec", "attr"): lambda E, o, n: (lambda E, *a: Opaque("str"))})
