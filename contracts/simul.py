"""Contracts of Macro/Simulator.py without the proof system (C04).

The macro machine is abstract (uninterpreted transition functions over
symbols, states, directions); x*(k) is its run from the initial
configuration: state, direction, base steps, the two half tapes as seen from
the head, last visits.  C03 relates each macro transition to the base machine,
EmbedLemma relates a segment run to the run on the whole tape."""
import z3, copy as _copy
from pyvc.engine import *
from pyvc.contract import *
from . import tape as TP
from .tape import SYM, abs_tape, known_dir
from . import macro as MC
from .macro import CODES, ls_set, ls_havoc, ls_attr, uf
M = "Macro.Simulator"; TM = "Macro.Turing_Machine"; I = z3.IntSort(); B = z3.BoolSort(); INF = float("inf")
mc, mn, md, mk = [z3.Function("m_" + x, SYM, I, I, I) for x in ("cond", "next", "dir", "steps")]
mw = z3.Function("m_write", SYM, I, I, SYM); ml = z3.Function("m_last", SYM, I, I, I, I)
xS, xD, xB = [z3.Function("x_" + n, I, I) for n in ("state", "dir", "steps")]
xH = z3.Function("x_half", I, I, I, SYM)      # (time, side, distance) -> symbol
xV = z3.Function("x_last", I, I, I)
def read(k): return xH(k, xD(k), 0)
def now(f, k): return f(read(k), xS(k), xD(k))
def pop_push(h, d, w, nd, side, i):
    """half tape `side` after the symbol ahead of d is removed and w is pushed behind nd"""
    popped = lambda s, j: Ite(s == d, h(s, j + 1), h(s, j))
    return Ite(side == 1 - nd, Ite(i == 0, w, popped(side, i - 1)), popped(side, i))
def unfold(E, k):
    nd = now(md, k); y, s, d = read(k), xS(k), xD(k)
    E.assume(And(xS(k + 1) == now(mn, k), xD(k + 1) == nd, xB(k + 1) == xB(k) + now(mk, k), nd >= 0, nd <= 1, xD(k) >= 0, xD(k) <= 1, now(mc, k) >= 0, now(mc, k) <= 4, now(mk, k) >= 0))
    E.assume(Forall([I, I], lambda a, i: Implies(And(a >= 0, a <= 1, i >= 0), xH(k + 1, a, i) == pop_push(lambda b, j: xH(k, b, j), d, now(mw, k), nd, a, i)), patterns=lambda a, i: [xH(k + 1, a, i)]))
    E.assume(Forall([I], lambda q: And(ml(y, s, d, q) >= -1, xV(k + 1, q) == Ite(ml(y, s, d, q) >= 0, xB(k) + ml(y, s, d, q), xV(k, q))), patterns=lambda q: [xV(k + 1, q)]))
# ---- chain lemma ------------------------------------------------------------------
def chain_hyp(k, n):
    return [("a chain transition: same state and direction, running", And(now(mn, k) == xS(k), now(md, k) == xD(k), now(mc, k) == 0, n >= 0, xD(k) >= 0, xD(k) <= 1))]
def chain_concl(k, j, a, i, q):
    w, d = now(mw, k), xD(k)
    return [xS(k + j) == xS(k), xD(k + j) == d, xB(k + j) == xB(k) + j * now(mk, k), Implies(And(a >= 0, a <= 1, i >= 0), xH(k + j, a, i) == Ite(a == d, xH(k, a, i + j), Ite(i < j, w, xH(k, a, i - j)))),
            xV(k + j, q) == Ite(And(j > 0, now(lambda y, s, d: ml(y, s, d, q), k) >= 0), xB(k) + (j - 1) * now(mk, k) + now(lambda y, s, d: ml(y, s, d, q), k), xV(k, q))]
class ChainLemma(Lemma):
    """n equal symbols ahead and a transition keeping state and direction: after
    j <= n transitions (all running) they are replaced, by induction on j"""
    name = "a chain move is that many transitions"
    def obligations(self, E):
        k, n, j = E.int("k"), E.int("n"), E.int("j"); y = read(k)
        for _, c in chain_hyp(k, n): E.assume(c)
        E.assume(Forall([I], lambda i: Implies(And(0 <= i, i < n), xH(k, xD(k), i) == y)))
        a, i, q = E.int("a"), E.int("i"), E.int("q"); E.assume(And(now(mk, k) >= 0))
        for c in chain_concl(k, z3.IntVal(0), a, i, q): E.prove("for no transition", z3.simplify(c) if False else z3.substitute(c, (k + 0, k)) if False else Implies(k + 0 == k, c))
        E.assume(And(0 <= j, j < n)); kj = k + j; K1 = kj + 1
        # hypothesis for j, at every cell
        for c in chain_concl(k, j, a, i, q)[:3]: E.assume(c)
        E.assume(Forall([I, I], lambda a, i: chain_concl(k, j, a, i, q)[3], patterns=lambda a, i: [xH(kj, a, i)])); E.assume(chain_concl(k, j, a, i, q)[4])
        E.assume(xH(k, xD(k), j) == y); E.assume(chain_concl(k, j, xD(k), z3.IntVal(0), q)[3])
        E.prove("the next symbol is the same", read(kj) == y); E.prove("so it is running", now(mc, kj) == 0)
        unfold(E, kj); m = now(mk, k); E.assume((j + 1) * m == j * m + m)
        for n_, c in zip(("state", "direction", "steps", "cells", "last visits"), chain_concl(k, j + 1, a, i, q)): E.prove("after one more: " + n_, z3.substitute(c, (k + (j + 1), K1)))
class ForeverLemma(Lemma):
    """only equal symbols ahead, forever: every transition is the same running one"""
    name = "an infinite chain never stops"
    def obligations(self, E):
        k, j = E.int("k"), E.int("j"); y = read(k); E.assume(j >= 0)
        for _, c in chain_hyp(k, j + 1): E.assume(c)
        E.assume(Forall([I], lambda i: Implies(i >= 0, xH(k, xD(k), i) == y), patterns=lambda i: [xH(k, xD(k), i)]))
        # ChainLemma with n = j + 1 gives the configuration after j transitions
        q = E.int("q")
        for c in chain_concl(k, j, xD(k), z3.IntVal(0), q): E.assume(c)
        E.assume(xH(k, xD(k), j) == y); E.prove("transition k+j is running", now(mc, k + j) == 0)
class EmbedLemma(Lemma):
    """a step of the base machine inside a segment of the tape is the same step
    on the whole tape, and leaves the rest of the tape alone"""
    name = "segment runs embed into the run on the whole tape"
    def obligations(self, E):
        W, N, D = [E.func(x, I, I, I) for x in ("W", "N", "D")]; seg, full = E.func("seg", I, I), E.func("full", I, I); off, n, p, q = [E.int(x) for x in ("off", "n", "p", "q")]; seg1, full1 = E.func("seg1", I, I), E.func("full1", I, I)
        E.assume(And(n >= 1, 0 <= p, p < n)); E.assume(Forall([I], lambda i: Implies(And(0 <= i, i < n), full(off + i) == seg(i)), patterns=lambda i: [seg(i)]))
        y, Y = seg(p), full(off + p); i = E.int("i"); E.assume(Implies(And(0 <= i, i < n), full(off + i) == seg(i)))
        st = lambda f, y, p: lambda x: Ite(x == p, W(y, q), f(x)); mv = lambda y: Ite(D(y, q) == 1, 1, -1)
        E.prove("same symbol read", Y == y); E.prove("same next state", N(Y, q) == N(y, q)); E.prove("head moves alike", (off + p) + mv(Y) == off + (p + mv(y)))
        E.prove("segment cells change alike", Implies(And(0 <= i, i < n), st(full, Y, off + p)(off + i) == st(seg, y, p)(i))); E.prove("other cells stay", Implies(Or(i < off, i >= off + n), st(full, Y, off + p)(i) == full(i)))
# ---- the abstract macro machine and its transitions ---------------------------------
def mm_attr(E, o, name):
    if name == "get_trans_object":
        def f(E, symbol, state, dir):
            g = E.ghost["sim"]; k = g.fields["__K__"]
            E.prove("looks up the symbol ahead, the current state and direction", And(symbol == read(k), zi(state) == xS(k), zi(dir) == xD(k)))
            unfold(E, k); code = now(mc, k)
            for i in (1, 2, 3, 4, 0):
                if i == 0 or E.branch(code == i): break
            y, s, d = read(k), xS(k), xD(k)
            r = E.new(TM, "Transition", condition=CODES[i], condition_details=Opaque("details"), symbol_out=now(mw, k), state_out=now(mn, k), dir_out=now(md, k), num_base_steps=now(mk, k), states_last_seen=Obj(E, "TLS", {"at": lambda q: ml(y, s, d, q)}), inf_recur_states=("recur", k) if i == 2 else None)
            E.ghost["trans"] = r; return r
        return f
    if name == "eval_symbol": return Opaque("eval_symbol") if "evs" not in E.ghost else E.ghost["evs"]
    if name == "eval_state":
        def f(E, s): return EVST(zi(s))
        return f
    return MISSING
EVST = z3.Function("state_value", I, I)
def tls_attr(E, o, name):
    at = o.fields["at"]
    if name in ("items", "keys"):
        n = E.int("seen_n"); key = E.func("seen_key", I, I); ix = E.func("seen_ix", I, I); E.assume(n >= 0)
        E.assume(Forall([I], lambda k: Implies(And(0 <= k, k < n), And(ix(key(k)) == k, at(key(k)) >= 0)), patterns=lambda k: [key(k)]))
        E.assume(Forall([I], lambda q: Implies(at(q) >= 0, And(0 <= ix(q), ix(q) < n, key(ix(q)) == q)), patterns=lambda q: [at(q)]))
        s = SymSeq(E, (lambda k: (key(k), at(key(k)))) if name == "items" else (lambda k: key(k)), n); s.order = (at, key, ix, n); E.ghost["items"] = s
        return lambda E: s
    return MISSING
def mk_sim(E, comp=None, op="Running"):
    fs = [E.func("VL", I, SYM), E.func("VR", I, SYM)]; ls = E.func("LS0", I, I); comp = E.case(True, False) if comp is None else comp
    t = abs_tape(E, v=[lambda i: fs[0](i), lambda i: fs[1](i)]); K = E.int("K")
    o = E.new(M, "Simulator", machine=Obj(E, "MacroTM", {}), options=Obj(E, "Options", {"html_format": False}), verbose=False, verbose_prefix="", is_base_simulator=True, compute_steps=comp, state=E.int("state"), dir=t.fields["dir"], old_step_num=E.int("old"), step_num=E.int("steps"),
              tape=t, prover=None, op_state=op, op_details=(), num_loops=E.int("loops"), num_macro_moves=E.int("nm"), num_chain_moves=E.int("nc"), num_rule_moves=E.int("nr"), steps_from_macro=E.int("sm") if comp else None, steps_from_chain=E.int("sc") if comp else None, steps_from_rule=0 if comp else None,
              states_last_seen=Obj(E, "LS", {"last": lambda q: ls(q)}) if comp else None, inf_reason=Opaque("r"), inf_recur_states=Opaque("s"), start_time=Opaque("t"))
    o.fields["__K__"] = K; E.assume(K >= 0); E.ghost["sim"] = o
    return o
def on_run(E, o, k, comp=None):
    """o is the run's configuration k"""
    F = o.fields; t = F["tape"]; v = t.fields.get("__v__"); out = []
    if v is None: raise Unsupported("tape without view")
    out = [("state of the run", zi(F["state"]) == xS(k)), ("direction of the run", And(zi(F["dir"]) == xD(k), zi(t.fields["dir"]) == xD(k)))]
    for a in (0, 1):
        out.append(("%s half tape of the run" % ("left", "right")[a], Forall([I], lambda i, a=a: Implies(i >= 0, v[a](i) == xH(k, a, i)), patterns=lambda i, a=a: [v[a](i)] if uf(v[a](i)) else None)))
    if F["compute_steps"] is True:
        out.append(("base steps of the run", zi(F["step_num"]) == xB(k))); ls = F["states_last_seen"]
        if ls is not None:
            if not (isinstance(ls, Obj) and ls.cls == "LS"): raise Unsupported("last-seen map")
            out.append(("last visits of the run", Forall([I], lambda q: ls.fields["last"](q) == xV(k, q), patterns=lambda q: [ls.fields["last"](q)] if uf(ls.fields["last"](q)) else None)))
    return out
def frame(E, o):
    fs = ["state", "dir", "old_step_num", "step_num", "op_state", "op_details", "num_loops", "num_macro_moves", "num_chain_moves", "steps_from_macro", "steps_from_chain", "inf_reason", "inf_recur_states", "__K__"]
    out = [(o, f) for f in fs] + [(o.fields["tape"], "__v__"), (o.fields["tape"], "dir")]
    if o.fields["states_last_seen"] is not None: out.append((o.fields["states_last_seen"], "last"))
    return out
class Step(Contract):
    feas_ms = 60; module = M; qualname = "Simulator.step"; params = ["self"]
    def args(self, E): op = E.case("Running", "Halt"); return NS(self=mk_sim(E, op=op) if op == "Running" else mk_sim(E, True, op))
    def pre(self, E, a): return on_run(E, a.self, a.self.fields["__K__"]) if a.self.fields["op_state"] == "Running" else []
    def old(self, E, a): return NS(K=a.self.fields["__K__"], loops=zi(a.self.fields["num_loops"]), op=a.self.fields["op_state"], F=dict(a.self.fields))
    def modifies(self, E, a): return frame(E, a.self)
    def loops(self):
        def base(E):
            k = E.ghost["sim"].fields["__K__"]; n = E.ghost.get("reps"); return xB(k) + ((n - 1) * now(mk, k) if n is not None else 0)
        def inv(E, env):
            at, key, ix, n = E.ghost["items"].order; k = zi(env.extra["k"]); ls = E.ghost["sim"].fields["states_last_seen"].fields["last"]; b = E.ghost["ls0"]; bs = base(E)
            return [("visits recorded so far", Forall([I], lambda q: ls(q) == Ite(And(at(q) >= 0, ix(q) < k), bs + at(q), b(q)), patterns=lambda q: [ls(q)] if uf(ls(q)) else None))]
        def pre(E, env): E.ghost["ls0"] = E.ghost["sim"].fields["states_last_seen"].fields["last"]
        fr_ = lambda E, fr: [(E.ghost["sim"].fields["states_last_seen"], "last")]
        mkl = lambda n: Loop(n, inv, pre=pre, frame=fr_, match=lambda E, s, fr: "items" in E.ghost, havoc_local=lambda E, fr, nm: Opaque(nm) if isinstance(fr.locals[nm], (str, Opaque)) else MISSING)
        return [mkl("visits"), mkl("visits2"), mkl("visits3")]
    def post(self, E, old, a, r):
        F = a.self.fields; op = F["op_state"]; k = old.K; n = E.ghost.get("reps")
        if old.op != "Running": return [("a stopped simulator does not change", all(F[x] is v for x, v in old.F.items()))]
        if op not in CODES: return [("a known condition", False)]
        cnt = [("loop counted", zi(F["num_loops"]) == old.loops + 1)]
        if op == "Gave_Up": return [("gave up", True)]
        if op == "Inf_Repeat":
            R = F["inf_recur_states"]; q = E.int("anystate"); ls = F["states_last_seen"]; seen = lambda t: [("last visits", ls.fields["last"](q) == xV(t, q))] if F["compute_steps"] is True and ls is not None else []
            if E.ghost.get("inf_chain"):
                # hypotheses of ForeverLemma
                return [("the recurring states are those of the chain transition", MC.member(E, R)(q) == (now(lambda y, s, d: ml(y, s, d, q), k) >= 0))] + seen(k) + [(l, c) for l, c in chain_hyp(k, z3.IntVal(1))] + [("only that symbol ahead", Forall([I], lambda i: Implies(i >= 0, xH(k, xD(k), i) == read(k))))]
            return seen(k + 1) + [("the macro transition itself never ends", now(mc, k) == 2), ("the recurring states are the transition's", And(isinstance(R, tuple) and len(R) == 2 and R[0] == "recur", R[1] == k) if isinstance(R, tuple) else False)]
        if op == "Running" and n is not None:
            for l, c in chain_hyp(k, n): E.prove("chain move: " + l, c)
            x = E.int("x"); E.prove("chain move: all replaced symbols are the one ahead", Implies(And(0 <= x, x < n), xH(k, xD(k), x) == read(k)))
            m = now(mk, k)
            qq = E.int("q"); cc = lambda a, i, q: chain_concl(k, n, a, i, q)
            for c in cc(qq, qq, qq)[:3]: E.assume(c)
            E.assume(Forall([I, I], lambda a, i: cc(a, i, qq)[3], patterns=lambda a, i: [xH(k + n, a, i)])); E.assume(Forall([I], lambda q: cc(qq, qq, q)[4], patterns=lambda q: [xV(k + n, q)]))
            E.assume((n - 1) * m + m == n * m)
            return on_run(E, a.self, k + n) + cnt
        want = CODES.index(op)
        return on_run(E, a.self, k + 1) + cnt + [("condition is that of the transition", now(mc, k) == want)]
    def apply_call(self, E, f, argv):
        o = argv[0]; F = o.fields
        if F["op_state"] != "Running": return None
        for l, c in on_run(E, o, F["__K__"]): E.prove("call step: requires " + l, c)
        k = F["__K__"]; Contract.havoc(self, E, NS(self=o), None) if False else None
        E.setfield(o, "__K__", E.int("K")); E.assume(F["__K__"] > k)
        for x in ("state", "step_num", "num_macro_moves", "num_chain_moves"): E.setfield(o, x, E.int(x))
        E.setfield(o, "num_loops", zi(F["num_loops"]) + 1)
        nd = E.case(0, 1); E.setfield(o, "dir", nd); E.setfield(F["tape"], "dir", nd); fs = [E.func("VL", I, SYM), E.func("VR", I, SYM)]; E.setfield(F["tape"], "__v__", [lambda i: fs[0](i), lambda i: fs[1](i)])
        if F["states_last_seen"] is not None: g = E.func("LS", I, I); E.setfield(F["states_last_seen"], "last", lambda q: g(q))
        E.setfield(o, "op_state", E.case(*CODES))
        if F["op_state"] in ("Running", "Halt", "Undefined"):
            for l, c in on_run(E, o, F["__K__"]): E.assume(c)
class Runner(Contract):
    """seek / loop_seek / run / loop_run: whole steps only, so the simulator stays on the run"""
    feas_ms = 40; module = M; field = "step_num"; rel = False
    def args(self, E): o = mk_sim(E, True); E.ghost["cut"] = E.int("cutoff"); return NS(self=o, n=E.ghost["cut"])
    def pre(self, E, a): return on_run(E, a.self, a.self.fields["__K__"])
    def old(self, E, a): E.ghost["old"] = zi(a.self.fields[self.field]); return NS(v=zi(a.self.fields[self.field]), K=a.self.fields["__K__"])
    def modifies(self, E, a): return frame(E, a.self)
    def loops(self):
        def inv(E, env):
            o = E.ghost["sim"]; return (on_run(E, o, o.fields["__K__"]) if o.fields["op_state"] in ("Running", "Halt", "Undefined") else []) + [("never backwards", o.fields["__K__"] >= 0)]
        def hh(E, fr, o, f):
            if o is E.ghost["sim"]:
                if f == "op_state": o.fields[f] = E.case(*CODES); return True
                if f == "dir": nd = E.case(0, 1); o.fields["dir"] = nd; o.fields["tape"].fields["dir"] = nd; return True
                if f in ("op_details", "inf_reason", "inf_recur_states"): return True
            if o is E.ghost["sim"].fields["tape"]:
                if f == "dir": return True
                if f == "__v__": fs = [E.func("VL", I, SYM), E.func("VR", I, SYM)]; o.fields["__v__"] = [lambda i: fs[0](i), lambda i: fs[1](i)]; return True
            return False
        return [Loop("seek", inv, havoc_heap=hh)]
    def post(self, E, old, a, r):
        o = a.self; F = o.fields; op = F["op_state"]; cut = E.ghost["cut"] + (old.v if self.rel else 0)
        out = on_run(E, o, F["__K__"]) if op in ("Running", "Halt", "Undefined") else []
        if F["compute_steps"] is True or self.field != "step_num": out += [("stops early only when no longer running", Or(op != "Running", zi(F[self.field]) >= cut))]
        return out
class Seek(Runner): qualname = "Simulator.seek"; params = ["self", "n"]
class LoopSeek(Runner): qualname = "Simulator.loop_seek"; params = ["self", "n"]; field = "num_loops"
class Run(Runner): qualname = "Simulator.run"; params = ["self", "n"]; rel = True
class LoopRun(Runner): qualname = "Simulator.loop_run"; params = ["self", "n"]; field = "num_loops"; rel = True
def inline(self, E, f, argv): return E.call_body(f, argv, {})
Seek.apply_call = inline; LoopSeek.apply_call = inline
class SInit(Contract):
    """starts at configuration 0: start state, blank tape, no steps"""
    module = M; qualname = "Simulator.__init__"; params = ["self", "machine", "options", "verbose_prefix", "init_tape", "is_base_simulator"]
    def args(self, E):
        m = Obj(E, "MacroTM", {"init_state": E.int("init"), "init_dir": E.case(0, 1), "init_symbol": E.fresh(SYM, "blank")}); comp = E.case(True, False)
        o = Obj(E, "Options", {"verbose_simulator": False, "compute_steps": comp, "prover": False}); E.ghost["m"] = m
        return NS(self=E.new(M, "Simulator"), machine=m, options=o, verbose_prefix="", init_tape=True, is_base_simulator=True)
    def modifies(self, E, a): return [(a.self, None)]
    def post(self, E, old, a, r):
        F = a.self.fields; m = a.machine.fields; v = F["tape"].fields.get("__v__"); b = m["init_symbol"]
        if v is None: return [("tape initialised", False)]
        ls = F["states_last_seen"]
        return [("machine kept", F["machine"] is a.machine), ("start state and direction", And(zi(F["state"]) == zi(m["init_state"]), zi(F["dir"]) == zi(m["init_dir"]), zi(F["tape"].fields["dir"]) == zi(m["init_dir"]))), ("blank tape", Forall([I, I], lambda s, i: Implies(i >= 0, And(v[0](i) == b, v[1](i) == b)))),
                ("no steps yet", zi(F["step_num"]) == 0), ("running", F["op_state"] == "Running"), ("no proof system", F["prover"] is None), ("no loops yet", zi(F["num_loops"]) == 0), ("no visits yet", (isinstance(ls, PyDict) and not ls.d) if a.options.fields["compute_steps"] else ls is None), ("steps computed as asked", F["compute_steps"] is a.options.fields["compute_steps"])]
class Nonz(Contract):
    module = M; qualname = "Simulator.get_nonzeros"; params = ["self"]
    def args(self, E): o = mk_sim(E); E.ghost["evs"] = Opaque("eval_symbol"); return NS(self=o)
    def post(self, E, old, a, r):
        g = E.ghost.get("nz"); return [("value of the whole tape plus the state's", And(g is not None and r is g[3] and g[0] is a.self.fields["tape"] and g[1] is E.ghost["evs"], zi(g[2]) == EVST(zi(a.self.fields["state"]))) if g else False)]
class TInit(TP.Init):
    assumed = True; why = "verified for C02"
    def apply_call(self, E, f, argv):
        t, s, d, o = argv; E.setfield(t, "dir", d); E.setfield(t, "__v__", [lambda i: s, lambda i: s]); E.setfield(t, "options", o)
class TNz(TP.Nonzeros):
    assumed = True; why = "verified for C02"
    def apply_call(self, E, f, argv): r = E.int("nonzeros"); E.ghost["nz"] = (argv[0], argv[1], argv[2], r); return r
class TChain(TP.ChainMove):
    assumed = True; why = "verified for C02"
    def apply_call(self, E, f, argv):
        r = TP.ChainMove.apply_call(self, E, f, argv)
        if isinstance(r, float): E.ghost["inf_chain"] = True
        else: E.ghost["reps"] = r
        E.prove("a chain move is made with the transition's symbol", argv[1] == E.ghost["trans"].fields["symbol_out"]); return r
class TSingle(TP.SingleMove): assumed = True; why = "verified for C02"
class TTop(TP.TopSymbol): assumed = True; why = "verified for C02"
CONTRACTS = [Step(), Seek(), LoopSeek(), Run(), LoopRun(), SInit(), Nonz(), TInit(), TNz(), TChain(), TSingle(), TTop()]
LEMMAS = ["ChainLemma", "ForeverLemma", "EmbedLemma"]
EXTS = {("isinstance", "Values"): lambda E, x: isinstance(x, Obj) and x.cls == "Options", ("MacroTM", "attr"): mm_attr, ("TLS", "attr"): tls_attr, ("LS", "setitem"): ls_set, ("LS", "havoc"): ls_havoc, ("LS", "attr"): ls_attr, ("external", "time.time"): lambda E: Opaque("time")}
