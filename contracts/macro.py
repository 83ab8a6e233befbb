"""Contracts of Macro/Turing_Machine.py (C03): sim_limited, the macro machines'
eval_trans and their transition cache.

The machine one level down is abstract: uninterpreted functions give, for a
symbol, state and direction, the condition, symbol, state, direction, number of
base steps and last visits of its transition (symbols, states and directions of
any kind are identified with integers).  SG*(t) is the segment run of that
machine: configuration after t transitions."""
import z3
from pyvc.engine import *
from pyvc.contract import *
M = "Macro.Turing_Machine"; I = z3.IntSort(); B = z3.BoolSort()
CODES = ["Running", "Halt", "Inf_Repeat", "Undefined", "Gave_Up"]
tc, tw, tn, td, tk = [z3.Function("t_" + x, I, I, I, I) for x in ("cond", "write", "next", "dir", "steps")]
tl = z3.Function("t_last", I, I, I, I, I)       # last visit of a base state during the transition, -1: not visited
gS, gD, gP, gB = [z3.Function("sg_" + x, I, I) for x in ("state", "dir", "pos", "steps")]
gT = z3.Function("sg_tape", I, I, I); gL = z3.Function("sg_last", I, I, I)
def cell(t): return gT(t, gP(t))
def cur(f, t): return f(cell(t), gS(t), gD(t))
def unfold(E, t):
    """definition of the segment run at t -> t+1"""
    d = cur(td, t)
    E.assume(And(gS(t + 1) == cur(tn, t), gD(t + 1) == d, gP(t + 1) == gP(t) + Ite(d == 1, 1, Ite(d == 0, -1, 0)), gB(t + 1) == gB(t) + cur(tk, t), d >= 0, d <= 2, cur(tc, t) >= 0, cur(tc, t) <= 4, cur(tk, t) >= 0))
    y, s, dd = cell(t), gS(t), gD(t)
    E.assume(Forall([I], lambda i: gT(t + 1, i) == Ite(i == gP(t), cur(tw, t), gT(t, i)), patterns=lambda i: [gT(t + 1, i)]))
    E.assume(Forall([I], lambda q: And(tl(y, s, dd, q) >= -1, gL(t + 1, q) == Ite(tl(y, s, dd, q) >= 0, gB(t) + tl(y, s, dd, q), gL(t, q))), patterns=lambda q: [gL(t + 1, q)]))
# ---- the machine one level down -------------------------------------------------
def abs_attr(E, o, name):
    if name == "get_trans_object":
        def f(E, symbol, state, dir=None):
            g = E.ghost.get("seg")
            if g is None: raise Unsupported("transition outside a segment run")
            t = g.fields["t"]; n = E.ghost["n"]
            E.prove("asks for the transition at the head, in the current state and direction", And(zi(symbol) == cell(t), zi(state) == gS(t), zi(dir) == gD(t)))
            E.prove("the machine is still running inside the segment", And(g.fields["running"], 0 <= gP(t), gP(t) < n))
            unfold(E, t); E.setfield(g, "t", t + 1)
            code = cur(tc, t)
            for i in (1, 2, 3, 4, 0):
                if i == 0 or E.branch(code == i): break
            E.setfield(g, "running", z3.BoolVal(i == 0))
            tag = Opaque("cell"); E.ghost.setdefault("details", []).append(tag)
            m = Obj(E, "TLS", {"y": cell(t), "s": gS(t), "d": gD(t)})
            r = E.new(M, "Transition", condition=CODES[i], condition_details=PyList(E, [("cell", t)]), symbol_out=cur(tw, t), state_out=cur(tn, t), dir_out=cur(td, t), num_base_steps=cur(tk, t), states_last_seen=m, inf_recur_states=("recur", t) if i == 2 else None)
            return r
        return f
    if name == "eval_symbol": return lambda E, s: EV(zi(s))
    if name == "eval_state": return lambda E, s: EVS(zi(s))
    return MISSING
EV = z3.Function("value_of_symbol", I, I); EVS = z3.Function("value_of_state", I, I)
def tls_attr(E, o, name):
    F = o.fields; at = lambda q: tl(F["y"], F["s"], F["d"], q)
    if name in ("items", "keys"):
        n = E.int("seen_n"); key = E.func("seen_key", I, I); ix = E.func("seen_ix", I, I); E.assume(n >= 0)
        E.assume(Forall([I], lambda k: Implies(And(0 <= k, k < n), And(ix(key(k)) == k, at(key(k)) >= 0)), patterns=lambda k: [key(k)]))
        E.assume(Forall([I], lambda q: Implies(at(q) >= 0, And(0 <= ix(q), ix(q) < n, key(ix(q)) == q)), patterns=lambda q: [at(q)]))
        s = SymSeq(E, (lambda k: (key(k), at(key(k)))) if name == "items" else (lambda k: key(k)), n); s.order = (at, key, ix, n); E.ghost["items"] = s
        return lambda E: s
    return MISSING
def tls_get(E, o, q):
    F = o.fields; return tl(F["y"], F["s"], F["d"], zi(q))
def ls_set(E, o, q, v): f = o.fields["last"]; q, v = zi(q), zi(v); E.setfield(o, "last", lambda x: Ite(x == q, v, f(x)))
def ls_havoc(E, o, f):
    if f == "last": g = E.func("LS", I, I); o.fields["last"] = lambda x: g(x); return True
    return False
def ls_attr(E, o, name):
    if name == "update":
        def f(E, other):
            if isinstance(other, Obj) and other.cls == "LS": g, h = o.fields["last"], other.fields["last"]; E.setfield(o, "last", lambda x: Ite(h(x) >= 0, h(x), g(x))); return
            raise Unsupported("update")
        return f
    if name in ("items", "keys"):
        at = o.fields["last"]; n = E.int("ls_n"); key = E.func("ls_key", I, I); ix = E.func("ls_ix", I, I); E.assume(n >= 0)
        E.assume(Forall([I], lambda k: Implies(And(0 <= k, k < n), And(ix(key(k)) == k, at(key(k)) >= 0)), patterns=lambda k: [key(k)]))
        E.assume(Forall([I], lambda q: Implies(at(q) >= 0, And(0 <= ix(q), ix(q) < n, key(ix(q)) == q)), patterns=lambda q: [ix(q)]))
        s = SymSeq(E, (lambda k: (key(k), at(key(k)))) if name == "items" else (lambda k: key(k)), n); s.order = (at, key, ix, n); E.ghost["lsitems"] = s
        return lambda E: s
    return MISSING
def member(E, r):
    """membership test of a collection of states built from a last-visit map"""
    if isinstance(r, Obj) and r.cls == "QSet": return r.fields["has"]
    it = E.ghost.get("lsitems") or E.ghost.get("items")
    if isinstance(r, FilterSeq): cond, elt, n = r.cond, r.elt, zi(r.length)
    elif isinstance(r, SymSeq): cond, elt, n = (lambda k: z3.BoolVal(True)), E.getter(r), zi(r.length)
    else: raise Unsupported("collection of states %r" % (r,))
    k = z3.Int("k!m")
    if it is None or not (is_z(elt(k)) and elt(k).eq(it.order[1](k))): raise Unsupported("collection of states")
    at, key, ix, _ = it.order; return lambda q: And(0 <= ix(q), ix(q) < n, key(ix(q)) == q, cond(ix(q)))
def dictcomp(E, e):
    """{state: value for state, t in last_seen.items()}"""
    g = e.generators[0]
    if len(e.generators) != 1 or g.ifs: return MISSING
    it = E.eval(g.iter)
    if not (isinstance(it, SymSeq) and getattr(it, "order", None)): return MISSING
    at, key, ix, n = it.order; fr = E.frames[-1]
    def val(q):
        nf = Frame(fr.func, dict(fr.locals), fr.module, fr.closure); E.frames.append(nf)
        try: E.assign(g.target, (q, at(q))); k = E.eval(e.key); v = E.eval(e.value)
        finally: E.frames.pop()
        if not (is_z(k) and k.eq(q)): raise Unsupported("dictionary key")
        return zi(v)
    return Obj(E, "LS", {"last": lambda q: Ite(at(q) >= 0, val(q), -1)})
def conf_is(t, st, dr, ps): return And(zi(st) == gS(t), zi(dr) == gD(t), zi(ps) == gP(t))
def getseq(E, s):
    if isinstance(s, Obj) and "__items__" in s.fields: s = s.fields["__items__"]
    if isinstance(s, tuple): s = PyList(E, list(s))
    if not isinstance(s, (SymSeq, PyList)): raise Unsupported("tape %r" % (s,))
    return E.getter(s), (zi(s.length) if isinstance(s, SymSeq) else z3.IntVal(len(s.items)))
class SimLimited(Contract):
    feas_ms = 50
    module = M; qualname = "sim_limited"; params = ["tm", "state", "start_tape", "pos", "dir", "max_loops"]
    def args(self, E):
        n = E.int("n"); E.assume(n >= 1); g0 = E.func("start", I, I)
        seq = lambda E, name: (lambda f: (lambda i: f(i)))(E.func(name, I, I))
        a = NS(tm=Obj(E, "AbsTM", {}), state=E.int("state0"), start_tape=SymSeq(E, lambda i: g0(i), n, "list", mk=seq), pos=E.int("pos0"), dir=E.int("dir0"), max_loops=E.int("max"))
        E.ghost.update(n=n, seg=Obj(E, "Seg", {"t": z3.IntVal(0), "running": z3.BoolVal(True)}))
        E.assume(And(gS(0) == a.state, gD(0) == a.dir, gP(0) == a.pos, gB(0) == 0)); E.assume(Forall([I], lambda i: gT(0, i) == g0(i), patterns=lambda i: [gT(0, i)])); E.assume(Forall([I], lambda q: gL(0, q) == -1, patterns=lambda q: [gL(0, q)]))
        return a
    def pre(self, E, a): return [("starts inside the segment", And(0 <= zi(a.pos), zi(a.pos) < getseq(E, a.start_tape)[1]))]
    def modifies(self, E, a): return [(E.ghost["seg"], None), (E.ghost["seg"], "t"), (E.ghost["seg"], "running")]
    def loops(self):
        def pre(E, env):
            for k, v in list(env.fr.locals.items()):
                if isinstance(v, PyDict) and not v.d: env.fr.locals[k] = Obj(E, "LS", {"last": lambda q: z3.IntVal(-1)})
        def ocname(fr, E): return (E.rename or {}).get("old_config", "old_config")
        def hv(E, fr, nm):
            v = fr.locals[nm]
            if v is None and nm != ocname(fr, E): E.ghost.setdefault("unset", set()).add(nm); return None   # the invariant below checks that it stays None
            if v is None or isinstance(v, tuple):
                if E.choose(2) == 0: E.ghost.pop("oc", None); return None
                f = E.func("saved", I, I); s = E.int("s"); x = (E.int("sv_state"), E.int("sv_dir"), E.int("sv_pos"), SymSeq(E, lambda i: f(i), E.ghost["n"], "list")); E.ghost["oc"] = (x, s); E.assume(s >= 1); return x
            if isinstance(v, (SymSeq, Obj, PyList)): return v
            if isinstance(v, str): return Opaque(nm)
            return MISSING
        def hh(E, fr, o, f): return False
        def inv(E, env):
            g = E.ghost["seg"]; t = g.fields["t"]; n = E.ghost["n"]
            tg, tn_ = getseq(E, env.tape); ls = env.states_last_seen
            if not (isinstance(ls, Obj) and ls.cls == "LS"): raise Unsupported("last-seen map changed")
            out = [("still running", g.fields["running"]), ("counts", t >= 0), ("state, direction and position are those of the run", conf_is(t, env.state, env.dir, env.pos)), ("inside the segment", And(0 <= gP(t), gP(t) < n)), ("segment length", tn_ == n),
                   ("tape is that of the run", Forall([I], lambda i: Implies(And(0 <= i, i < n), zi(tg(i)) == gT(t, i)), patterns=lambda i: [zi(tg(i))] if uf(zi(tg(i))) else None)),
                   ("base steps", zi(env.num_base_steps) == gB(t)), ("base steps are counted up", gB(t) >= 0), ("last visits", Forall([I], lambda q: ls.fields["last"](q) == gL(t, q), patterns=lambda q: [ls.fields["last"](q)] if uf(ls.fields["last"](q)) else None))]
            for nm in E.ghost.get("unset", ()):
                if env.fr.locals.get(nm) is not None: raise Unsupported("%s is set and kept" % nm)
            oc = env.old_config
            if oc is not None:
                if not (isinstance(oc, tuple) and len(oc) == 4): raise Unsupported("saved configuration")
                s = E.ghost["oc"][1] if "oc" in E.ghost and E.ghost["oc"][0] is oc else t
                sg, sn = getseq(E, oc[3])
                if oc[3] is env.tape: out.append(("saved tape is a copy", False))
                out += [("base steps at the saved configuration", zi(env.old_config_step) == gB(s)), ("saved configuration is one of the run", And(1 <= s, s <= t, conf_is(s, oc[0], oc[1], oc[2]), sn == n, 0 <= gP(s), gP(s) < n)), ("saved tape is that of the run", Forall([I], lambda i: Implies(And(0 <= i, i < n), zi(sg(i)) == gT(s, i)), patterns=lambda i: [zi(sg(i))] if uf(zi(sg(i))) else None))]
            return out
        def linv(E, env):
            at, key, ix, n = E.ghost["items"].order; k = zi(env.extra["k"]); ls = env.states_last_seen.fields["last"]; b = E.ghost["ls0"]; nb = zi(env.num_base_steps)
            return [("visits recorded so far", Forall([I], lambda q: ls(q) == Ite(And(at(q) >= 0, ix(q) < k), nb + at(q), b(q)), patterns=lambda q: [ls(q)] if uf(ls(q)) else None))]
        def lpre(E, env): E.ghost["ls0"] = env.states_last_seen.fields["last"]
        return [Loop("segment", inv, pre=pre, havoc_local=hv, havoc_heap=hh, match=lambda E, s, fr: isinstance(s, ast.While) or E.ghost["seg"].fields["t"].eq(z3.IntVal(0)) and "items" not in E.ghost),
                Loop("visits", linv, pre=lpre, match=lambda E, s, fr: "items" in E.ghost, havoc_local=lambda E, fr, nm: MISSING)]
    def post(self, E, old, a, r):
        if not (isinstance(r, Obj) and getattr(r.cls, "name", "") == "Transition"): return [("a transition", False)]
        F = r.fields; t = E.ghost["seg"].fields["t"]; n = E.ghost["n"]; c = F["condition"]; run = E.ghost["seg"].fields["running"]
        if c not in CODES: return [("a known condition", False)]
        if c == "Gave_Up": return [("gave up", True)]
        ls = F["states_last_seen"]; sg, sn = getseq(E, F["symbol_out"])
        exact = [("symbols are those of the run", Forall([I], lambda i: Implies(And(0 <= i, i < n), zi(sg(i)) == gT(t, i)))), ("segment length", sn == n), ("state and direction are those of the run", And(zi(F["state_out"]) == gS(t), zi(F["dir_out"]) == gD(t))),
                 ("number of base steps", zi(F["num_base_steps"]) == gB(t)), ("last visits", Forall([I], lambda q: ls.fields["last"](q) == gL(t, q))), ("took a step", t >= 1)] if isinstance(ls, Obj) and ls.cls == "LS" else [("last-visit map", False)]
        if c == "Running": return exact + [("still running", run), ("left the segment on the side of its direction", And(Or(gD(t) == 0, gD(t) == 1), gP(t) == Ite(gD(t) == 1, n, -1)))]
        i = CODES.index(c); inner = And(Not(run), cur(tc, t - 1) == i)
        if c in ("Halt", "Undefined"):
            d = F["condition_details"]; ok = isinstance(d, PyList) and d.items and isinstance(d.items[0], tuple) and d.items[0][0] == "cell"
            return exact + [("the machine itself stopped like that here", inner), ("details start with those of the last transition", d.items[0][1] == t - 1 if ok else False)]
        oc = E.ghost.get("oc"); s = oc[1] if oc else z3.IntVal(-1)
        rep = And(run, 1 <= s, s < t, gS(s) == gS(t), gD(s) == gD(t), gP(s) == gP(t), 0 <= gP(t), gP(t) < n)
        x = E.int("anycell"); R = F.get("inf_recur_states"); q = E.int("anystate")
        if isinstance(R, tuple) and len(R) == 2 and R[0] == "recur": recur = [("the recurring states are those of the transition that repeats", And(inner, R[1] == t - 1))]
        elif R is None: recur = [("the recurring states are known", False)]
        else: has = member(E, R); recur = [("the recurring states are the ones visited since the earlier configuration", And(rep, has(q) == And(gL(t, q) >= 0, gL(t, q) >= gB(s))))]
        if not (isinstance(ls, Obj) and ls.cls == "LS"): return [("last-visit map", False)]
        return recur + [("last visits", ls.fields["last"](q) == gL(t, q)), ("the machine itself repeats forever, or the run came back to an earlier configuration while running", Or(inner, rep)), ("the tape is the earlier one", Or(inner, Implies(And(0 <= x, x < n), gT(s, x) == gT(t, x))))]
    def apply_call(self, E, f, argv):
        a = NS(**dict(zip(self.params, argv)))
        for lab, c in self.pre(E, a): E.prove("call sim_limited: requires " + lab, c, "pre")
        tp, n = getseq(E, a.start_tape); ci = E.choose(5); fin = E.func("final", I, I)
        so = PyList(E, [fin(z3.IntVal(i)) for i in range(n.as_long())]) if z3.is_int_value(z3.simplify(n)) else SymSeq(E, lambda i: fin(i), n)
        d = E.int("dir_out"); E.assume(And(d >= 0, d <= 1))       # machines that move left or right
        r = E.new(M, "Transition", condition=CODES[ci], condition_details=Opaque("details"), symbol_out=so, state_out=E.int("state_out"), dir_out=d, num_base_steps=E.int("steps"), states_last_seen=Opaque("seen"), inf_recur_states=Opaque("recurring") if ci == 2 else None)
        r.meta["sim"] = (a, dict(r.fields)); E.ghost["sim"] = r; return r
def uf(t): return is_z(t) and z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() > 0
class RepeatLemma(Lemma):
    """a segment run that comes back to an earlier configuration while running
    stays in the segment and runs forever: configurations s+j and t+j agree for
    every j, so every later transition is one of those between s and t"""
    name = "a repeated configuration repeats forever"
    def obligations(self, E):
        s, t, j, n = [E.int(x) for x in ("s", "t", "j", "n")]; E.assume(And(0 <= s, s < t, j >= 0, n >= 1))
        eq = lambda j: And(gS(s + j) == gS(t + j), gD(s + j) == gD(t + j), gP(s + j) == gP(t + j)); unfold(E, s + j); unfold(E, t + j)
        E.assume(eq(j)); E.assume(Forall([I], lambda i: gT(s + j, i) == gT(t + j, i), patterns=lambda i: [gT(t + j, i)])); E.assume(gT(s + j, gP(s + j)) == gT(t + j, gP(s + j)))
        E.prove("next configurations agree", eq(j + 1)); x = E.int("x"); E.assume(gT(s + j, x) == gT(t + j, x))
        E.prove("next tapes agree", gT(s + j + 1, x) == gT(t + j + 1, x)); E.prove("same transition condition", cur(tc, s + j) == cur(tc, t + j))
        # strong induction on m: every transition m >= s is running and inside, given it holds for s <= m < t
        m = E.int("m"); ok = E.func("ok", I, B); E.assume(Forall([I], lambda k: Implies(And(s <= k, k < t), ok(k)), patterns=lambda k: [ok(k)])); E.assume(Forall([I], lambda k: Implies(And(s <= k, k < m), ok(k)), patterns=lambda k: [ok(k)])); E.assume(m >= s)
        E.assume(ok(m - (t - s)) == ok(m) if False else Implies(m >= t, ok(m) == ok(m - (t - s))))     # from the agreement above with j = m - t
        E.prove("runs on inside the segment", ok(m))
class RecurLemma(Lemma):
    """a state is visited by one of the transitions between s and t exactly when
    its last visit is not before s (last visits lie within the transition)"""
    name = "states visited in the repeated part"
    def obligations(self, E):
        s, t, q = E.int("s"), E.int("t"), E.int("q"); at = lambda u: tl(cell(u), gS(u), gD(u), q); W = E.func("visited_between", I, B); w = E.func("witness", I, I)
        E.assume(And(0 <= s, s <= t, gL(s, q) < gB(s))); E.assume(gB(s) >= 0)
        E.assume(W(s) == z3.BoolVal(False))                                       # none between s and s
        hyp = lambda u: And(gL(u, q) < gB(u), gB(u) >= gB(s), W(u) == (gL(u, q) >= gB(s)))
        E.prove("for an empty part", hyp(s)); E.assume(hyp(t)); unfold(E, t); E.assume(And(at(t) >= -1, at(t) < cur(tk, t), gL(t + 1, q) == Ite(at(t) >= 0, gB(t) + at(t), gL(t, q))))
        E.assume(W(t + 1) == Or(W(t), at(t) >= 0)); E.prove("for one more transition", hyp(t + 1))
# ---- block machine --------------------------------------------------------------
def mk_block(E, n=None):
    n = n if n is not None else E.int("block_size"); E.assume(n >= 1)
    return E.new(M, "Block_Macro_Machine", base_machine=Obj(E, "AbsTM", {}), block_size=n, max_sim_steps_per_symbol=E.int("maxsteps"), trans_table=Obj(E, "Cache", {"flushed": z3.IntVal(0)}), max_cells=E.int("max_cells"))
class BlockEval(Contract):
    module = M; qualname = "Block_Macro_Machine.eval_trans"; params = ["self", "macro_symbol_in", "macro_state_in", "macro_dir_in"]
    def args(self, E):
        m = mk_block(E); g = E.func("sym", I, I); st = E.int("state"); off = E.int("offset"); E.ghost["off"] = off
        o = E.new(M, "OffsetStartState", state=st, offset=off); E.assume(And(0 <= off, off < m.fields["block_size"]))
        return NS(self=m, macro_symbol_in=SymSeq(E, lambda i: g(i), m.fields["block_size"], "tuple"), macro_state_in=E.case(st, o), macro_dir_in=E.int("dir"))
    def pre(self, E, a): return [("direction is left or right", And(zi(a.macro_dir_in) >= 0, zi(a.macro_dir_in) <= 1))]
    def post(self, E, old, a, r):
        m = r.meta.get("sim") if isinstance(r, Obj) else None
        if m is None: return [("a segment run", False)]
        c, F0 = m; n = zi(a.self.fields["block_size"]); tp, tn_ = getseq(E, c.start_tape); ip, _ = getseq(E, a.macro_symbol_in); off = isinstance(a.macro_state_in, Obj)
        st = a.macro_state_in.fields["state"] if off else a.macro_state_in; want = E.ghost["off"] if off else Ite(zi(a.macro_dir_in) == 1, 0, n - 1)
        so = r.fields["symbol_out"]; isb = isinstance(so, Obj) and getattr(so.cls, "name", "") == "Block_Symbol" or isinstance(so, tuple); fo, fn = getseq(E, F0["symbol_out"])
        if not isb: return [("result symbol is a block symbol", False)]
        so_, sn_ = getseq(E, so)
        return [("runs the underlying machine", c.tm is a.self.fields["base_machine"]), ("from the same state, direction and entry cell", And(zi(c.state) == zi(st), zi(c.dir) == zi(a.macro_dir_in), zi(c.pos) == want)),
                ("on exactly the block's symbols", And(tn_ == n, True)), ("symbols", Forall([I], lambda i: Implies(And(0 <= i, i < n), zi(tp(i)) == zi(ip(i))))),
                ("returns the run's condition, state, direction and steps", all(r.fields[k] is F0[k] for k in ("condition", "state_out", "dir_out", "num_base_steps", "states_last_seen", "condition_details", "inf_recur_states"))),
                ("returns the run's symbols in order", Forall([I], lambda i: Implies(And(0 <= i, i < n), zi(so_(i)) == zi(fo(i))))), ("all of them", sn_ == n)]
class BackEval(Contract):
    module = M; qualname = "Backsymbol_Macro_Machine.eval_trans"; params = ["self", "macro_symbol_in", "macro_state_in", "macro_dir_in"]
    def args(self, E):
        m = E.new(M, "Backsymbol_Macro_Machine", base_machine=Obj(E, "AbsTM", {}), max_sim_steps_per_symbol=E.int("max"), trans_table=Obj(E, "Cache", {"flushed": z3.IntVal(0)}), max_cells=E.int("max_cells"))
        st = E.new(M, "Backsymbol_Macro_Machine_State", base_state=E.int("bstate"), back_symbol=E.int("back")); return NS(self=m, macro_symbol_in=E.int("front"), macro_state_in=st, macro_dir_in=E.int("dir"))
    def pre(self, E, a): return [("direction is left or right", And(zi(a.macro_dir_in) >= 0, zi(a.macro_dir_in) <= 1))]
    def post(self, E, old, a, r):
        m = r.meta.get("sim") if isinstance(r, Obj) else None
        if m is None: return [("a segment run", False)]
        c, F0 = m; tp, tn_ = getseq(E, c.start_tape); right = zi(a.macro_dir_in) == 1; f, b = zi(a.macro_symbol_in), zi(a.macro_state_in.fields["back_symbol"]); fo, _ = getseq(E, F0["symbol_out"]); so = r.fields["state_out"]
        ok = isinstance(so, Obj) and getattr(so.cls, "name", "") == "Backsymbol_Macro_Machine_State"
        if not ok: return [("result state carries a back symbol", False)]
        z, o = z3.IntVal(0), z3.IntVal(1)
        return [("runs the underlying machine", c.tm is a.self.fields["base_machine"]), ("from the same state and direction", And(zi(c.state) == zi(a.macro_state_in.fields["base_state"]), zi(c.dir) == zi(a.macro_dir_in))), ("two cells", tn_ == 2),
                ("the symbol in front and the one behind, in tape order", And(zi(tp(z)) == Ite(right, b, f), zi(tp(o)) == Ite(right, f, b))), ("enters at the symbol in front", zi(c.pos) == Ite(right, 1, 0)),
                ("returns the run's condition, direction and steps", all(r.fields[k] is F0[k] for k in ("condition", "dir_out", "num_base_steps", "states_last_seen", "condition_details", "inf_recur_states"))), ("returns the run's state", zi(so.fields["base_state"]) == zi(F0["state_out"])),
                ("symbols stay in tape order: the one behind the exit stays with the state", Ite(F0["dir_out"] == 1, And(zi(r.fields["symbol_out"]) == zi(fo(z)), zi(so.fields["back_symbol"]) == zi(fo(o))), And(zi(so.fields["back_symbol"]) == zi(fo(z)), zi(r.fields["symbol_out"]) == zi(fo(o)))))]
# ---- cache ----------------------------------------------------------------------
def key_eq(E, a, b): return And(*[E.truth_eq(x, y) for x, y in zip(a, b)]) if len(a) == len(b) else False
def cache_contains(E, o, k):
    d = o.meta.setdefault("stored", [])
    for kk, v in d:
        if key_eq(E, kk, k) is True: return True
    r = E.choose(2) == 1
    if r: o.meta["stored"] = d + [(k, mk_evald(E, k))]
    return r
def mk_evald(E, k): r = E.new(M, "Transition"); r.meta["eval_of"] = k; return r
def cache_get(E, o, k):
    for kk, v in o.meta.get("stored", []):
        if key_eq(E, kk, k) is True: return v
    raise PyRaise("KeyError")
def cache_set(E, o, k, v):
    e = v.meta.get("eval_of") if isinstance(v, Obj) else None
    E.prove("what is remembered for a symbol, state and direction was computed for them", key_eq(E, e, k) is True if e is not None and isinstance(k, tuple) and len(k) == 3 else False)
    o.meta["stored"] = [(kk, x) for kk, x in o.meta.get("stored", []) if key_eq(E, kk, k) is not True] + [(k, v)]
def cache_attr(E, o, name):
    if name == "clear":
        def f(E): o.meta["stored"] = []
        return f
    if name == "get":
        def f(E, k, d=None): return cache_get(E, o, k) if cache_contains(E, o, k) else d
        return f
    return MISSING
class GetTrans(Contract):
    module = M; params = ["self", "args"]; cls = None
    def args(self, E):
        o = mk_block(E); o = Obj(E, E.cls(M, self.cls), o.fields); E.ghost["key"] = (E.int("sym"), E.int("state"), E.int("dir"))
        return NS(self=o, args=list(E.ghost["key"]))
    def post(self, E, old, a, r): k = r.meta.get("eval_of") if isinstance(r, Obj) else None; return [("the transition computed for this symbol, state and direction", k is not None and key_eq(E, k, E.ghost["key"]) is True)]
    exts = {}
class BlockGet(GetTrans): qualname = "Block_Macro_Machine.get_trans_object"; cls = "Block_Macro_Machine"
class BackGet(GetTrans): qualname = "Backsymbol_Macro_Machine.get_trans_object"; cls = "Backsymbol_Macro_Machine"
def eval_call(self, E, f, argv): return mk_evald(E, tuple(argv[1:]))
BlockEval.apply_call = eval_call; BackEval.apply_call = eval_call
# ---- constructors and values ------------------------------------------------------
class BlockInit(Contract):
    module = M; qualname = "Block_Macro_Machine.__init__"; params = ["self", "base_machine", "block_size", "offset", "max_sim_steps_per_symbol"]
    def args(self, E):
        b = Obj(E, "AbsTM", {"num_states": Opaque("ns"), "num_symbols": Opaque("nk"), "init_dir": 1, "init_symbol": E.int("blank"), "init_state": E.int("init")}); n = E.int("k"); off = E.int("off")
        return NS(self=E.new(M, "Block_Macro_Machine"), base_machine=b, block_size=n, offset=E.case(None, off), max_sim_steps_per_symbol=E.int("max"))
    def pre(self, E, a): return [("size", zi(a.block_size) >= 1), ("offset", True if a.offset is None else And(zi(a.offset) >= 0, zi(a.offset) < zi(a.block_size)))]
    def modifies(self, E, a): return [(a.self, None)]
    def post(self, E, old, a, r):
        F = a.self.fields; b = a.base_machine; g, n = getseq(E, F["init_symbol"]); st = F["init_state"]; off = isinstance(st, Obj) and getattr(st.cls, "name", "") == "OffsetStartState"
        o = zi(a.offset) if a.offset is not None else z3.IntVal(0)
        return [("keeps the machine and the size", F["base_machine"] is b and F["block_size"] is a.block_size), ("blank is a block of blanks", And(n == zi(a.block_size))), ("every cell blank", Forall([I], lambda i: Implies(And(0 <= i, i < n), zi(g(i)) == zi(b.fields["init_symbol"])))), ("starts in the start state, moving the same way", F["init_dir"] is b.fields["init_dir"]),
                ("start state", And(o != 0, zi(st.fields["state"]) == zi(b.fields["init_state"]), zi(st.fields["offset"]) == o) if off else And(o == 0, zi(st) == zi(b.fields["init_state"]))), ("nothing remembered yet", isinstance(F["trans_table"], PyDict) and not F["trans_table"].d)]
class BackInit(Contract):
    module = M; qualname = "Backsymbol_Macro_Machine.__init__"; params = ["self", "base_machine", "max_sim_steps_per_symbol"]
    def args(self, E):
        b = Obj(E, "AbsTM", {"num_states": Opaque("ns"), "num_symbols": Opaque("nk"), "init_dir": 1, "init_symbol": E.int("blank"), "init_state": E.int("init")}); return NS(self=E.new(M, "Backsymbol_Macro_Machine"), base_machine=b, max_sim_steps_per_symbol=E.int("max"))
    def modifies(self, E, a): return [(a.self, None)]
    def post(self, E, old, a, r):
        F = a.self.fields; b = a.base_machine.fields; st = F["init_state"]
        return [("keeps the machine", F["base_machine"] is a.base_machine), ("blank and direction", And(zi(F["init_symbol"]) == zi(b["init_symbol"]), zi(F["init_dir"]) == zi(b["init_dir"]))),
                ("start state with a blank behind", And(zi(st.fields["base_state"]) == zi(b["init_state"]), zi(st.fields["back_symbol"]) == zi(b["init_symbol"])) if isinstance(st, Obj) else False), ("nothing remembered yet", isinstance(F["trans_table"], PyDict) and not F["trans_table"].d)]
class BackStateEq(Contract):
    module = M; qualname = "Backsymbol_Macro_Machine_State.__eq__"; params = ["self", "other"]
    def args(self, E): mk = lambda: E.new(M, "Backsymbol_Macro_Machine_State", base_state=E.int("b"), back_symbol=E.int("y")); return NS(self=mk(), other=mk())
    def post(self, E, old, a, r): return [("equal exactly when both parts are", zb(E.truth(r)) == And(*[zi(a.self.fields[k]) == zi(a.other.fields[k]) for k in ("base_state", "back_symbol")]))]
class BackEvalState(Contract):
    module = M; qualname = "Backsymbol_Macro_Machine.eval_state"; params = ["self", "backsymbol_macro_machine_state"]
    def args(self, E): return NS(self=E.new(M, "Backsymbol_Macro_Machine", base_machine=Obj(E, "AbsTM", {})), backsymbol_macro_machine_state=E.new(M, "Backsymbol_Macro_Machine_State", base_state=E.int("b"), back_symbol=E.int("y")))
    def post(self, E, old, a, r): s = a.backsymbol_macro_machine_state.fields; return [("value of the state plus that of the symbol behind", zi(r) == EVS(zi(s["base_state"])) + EV(zi(s["back_symbol"])))]
class BackEvalSym(Contract):
    module = M; qualname = "Backsymbol_Macro_Machine.eval_symbol"; params = ["self", "symbol"]
    def args(self, E): return NS(self=E.new(M, "Backsymbol_Macro_Machine", base_machine=Obj(E, "AbsTM", {})), symbol=E.int("y"))
    def post(self, E, old, a, r): return [("value of the symbol", zi(r) == EV(zi(a.symbol)))]
class BlockEvalSym(Contract):
    module = M; qualname = "Block_Macro_Machine.eval_symbol"; params = ["self", "macro_symbol"]
    def args(self, E):
        g = E.func("sym", I, I); n = E.int("n"); E.assume(n >= 1); G = E.func("G", I, I); E.ghost.update(g=g, n=n, G=G); E.assume(G(0) == 0)
        return NS(self=E.new(M, "Block_Macro_Machine", base_machine=Obj(E, "AbsTM", {})), macro_symbol=SymSeq(E, lambda i: g(i), n, "tuple"))
    def un(self, E, k): return E.ghost["G"](k + 1) == E.ghost["G"](k) + EV(E.ghost["g"](k))
    def loops(self):
        def cands(E, env): return [("%s sums the values so far" % k, zi(v) == E.ghost["G"](zi(env.extra["k"]))) for k, v in sorted(env.fr.locals.items()) if isinstance(v, int) and not isinstance(v, bool) or is_zint(v)]
        return [Loop("cells", lambda E, env: [], candidates=cands, head=lambda E, env: E.assume(self.un(E, env.extra["k"])))]
    def lemmas(self, E, old, a, r):
        for s in E.ghost.get("sums", []): E.induct("sum of the cell values", s["n"], lambda k: s["F"](k) == E.ghost["G"](k), unfold=lambda k: [s["unfold"](k), self.un(E, k)])
    def post(self, E, old, a, r): return [("sum of the values of its cells", zi(r) == E.ghost["G"](E.ghost["n"]))]
CONTRACTS = [SimLimited(), BlockEval(), BackEval(), BlockGet(), BackGet(), BlockInit(), BackInit(), BackStateEq(), BackEvalState(), BackEvalSym(), BlockEvalSym()]
LEMMAS = ["RepeatLemma", "RecurLemma"]
EXTS = {("AbsTM", "attr"): abs_attr, ("TLS", "attr"): tls_attr, ("TLS", "getitem"): tls_get, ("LS", "setitem"): ls_set, ("LS", "havoc"): ls_havoc, ("LS", "attr"): ls_attr, ("dictcomp", "*"): dictcomp,
        ("Cache", "contains"): cache_contains, ("Cache", "getitem"): cache_get, ("Cache", "setitem"): cache_set, ("Cache", "attr"): cache_attr, ("Cache", "len"): lambda E, o: E.int("cached")}
