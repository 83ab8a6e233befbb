"""Contracts of cpp/src/simulator.{h,cpp} (C22): the growing array tape and the
step-by-step simulator against the mathematical machine of tmspec.  The C++ is
read through cppfront."""
import z3
from pyvc.engine import *
from pyvc.contract import *
from .tmspec import *
from . import cppcommon as CC
M = "cpp"
NST, NSY = z3.Int("num_states"), z3.Int("num_symbols")
LOF, HIF = z3.Function("cpp_stored_from", I, I), z3.Function("cpp_stored_to", I, I)
def mvof(sym, st): return z3.If(DO(sym, st) == 1, z3.IntVal(1), z3.IntVal(-1))
def cell_wf(sym, st):
    """cells of a well-formed table"""
    return Implies(And(0 <= sym, sym < NSY, 0 <= st, st < NST), And(table_wf(sym, st), SO(sym, st) >= 0, SO(sym, st) < NSY, NX(sym, st) >= -1, NX(sym, st) < NST))
# ---- representation level of Tape -------------------------------------------
REP = ("unit_size_", "tape_", "index_start_", "index_")
def rep_tape(E):
    f = E.func("T", I, I); v = CC.mkvec(E, lambda i: f(i), E.int("n")); o = E.new(M, "Tape", unit_size_=E.int("unit"), tape_=v, index_start_=E.int("index_start"), index_=E.int("index")); return o
def rep_ok(o):
    if not isinstance(o, Obj) or any(f not in o.fields for f in REP) or not isinstance(o.fields["tape_"], Obj) or "get" not in o.fields["tape_"].fields: raise Unsupported("tape representation changed")
def rep_wf(o):
    rep_ok(o); F = o.fields; return And(0 <= zi(F["index_"]), zi(F["index_"]) < zi(F["tape_"].fields["n"]), zi(F["unit_size_"]) >= 1)
class TV:
    """what a tape means: cells by position, head, stored range"""
    def __init__(s, view, pos, lo, hi): s.view, s.pos, s.lo, s.hi = view, pos, lo, hi
def rep_tv(o):
    rep_ok(o); F = o.fields; n = zi(F["tape_"].fields["n"]); g = F["tape_"].fields["get"]; st, ix = zi(F["index_start_"]), zi(F["index_"])
    return TV(lambda p: z3.If(And(p + st >= 0, p + st < n), g(p + st), 0), ix - st, -st, n - 1 - st)
# ---- the same tape, abstractly ------------------------------------------------
def abs_tape(E, tv): o = E.new(M, "Tape"); o.fields["__tv__"] = tv; return o
def tape_at(E, t): o = E.new(M, "Tape"); o.fields["__t__"] = t; return o
def tv_of(o):
    F = o.fields
    if "__tv__" in F: return F["__tv__"]
    if "__t__" in F: t = F["__t__"]; return TV(lambda p: Ta(t, p), Po(t), LOF(t), HIF(t))
    return rep_tv(o)
def fresh_tv(E):
    f = E.func("V", I, I); tv = TV(lambda p: f(p), E.int("pos"), E.int("lo"), E.int("hi")); tv_facts(E, tv); return tv
def tv_facts(E, tv):
    E.assume(And(tv.lo <= tv.pos, tv.pos <= tv.hi)); E.assume(Forall([I], lambda p: Implies(Or(p < tv.lo, p > tv.hi), tv.view(p) == 0), patterns=(lambda p: [tv.view(p)]) if z3.is_app(tv.view(z3.Int("q"))) and tv.view(z3.Int("q")).decl().kind() == z3.Z3_OP_UNINTERPRETED else None))
def tape_havoc(E, o, field):
    if field == "__tv__": o.fields["__tv__"] = fresh_tv(E); return True
    return False
class TapeOp(Contract):
    module = M; writes = False
    def xargs(self, E): return {}
    def args(self, E): return NS(self=rep_tape(E), **self.xargs(E))
    def pre(self, E, a): return ([("representation invariant", rep_wf(a.self))] if "tape_" in a.self.fields else []) + self.xpre(E, a)
    def xpre(self, E, a): return []
    def old(self, E, a): return NS(tv=tv_of(a.self))
    def modifies(self, E, a): return [(a.self, "index_"), (a.self, "index_start_"), (a.self, "tape_"), (a.self.fields["tape_"], None)] if self.writes else []
    def spec(self, E, tv, a): "-> view', pos', result"; raise NotImplementedError
    def post(self, E, old, a, r):
        v, p, res = self.spec(E, old.tv, a); nt = rep_tv(a.self)
        out = [("representation invariant", rep_wf(a.self)), ("head position", nt.pos == p), ("every cell", Forall([I], lambda q: nt.view(q) == v(q))), ("the stored range only grows", And(nt.lo <= old.tv.lo, nt.hi >= old.tv.hi))]
        return out + self.xpost(E, old, a, r, res)
    def xpost(self, E, old, a, r, res): return [] if res is None else [("result", zi(r) == res if not isinstance(r, bool) and not is_zbool(r) else zb(r) == res)]
    def apply_call(self, E, f, argv):
        if len(argv) != len(self.params): raise Unsupported("signature changed")
        a = NS(**dict(zip(self.params, argv))); o = a.self
        if not isinstance(o, Obj) or not ("__tv__" in o.fields or "__t__" in o.fields): raise Unsupported("tape without abstract view")
        for l, c in self.xpre(E, a): E.prove("call %s: requires %s" % (self.qualname, l), c)
        tv = tv_of(o); v, p, res = self.spec(E, tv, a)
        if self.writes:
            if "__tv__" not in o.fields: raise Unsupported("a recorded tape is modified")
            lo, hi = (tv.lo, tv.hi) if self.keeps else (E.int("lo"), E.int("hi")); nt = TV(v, p, lo, hi)
            if not self.keeps: E.assume(And(lo <= tv.lo, hi >= tv.hi, lo <= p, p <= hi))
            E.setfield(o, "__tv__", nt)
        return self.xres(E, tv, a, res)
    keeps = False
    def xres(self, E, tv, a, res): return res
class TInit(TapeOp):
    qualname = "Tape._ctor__"; params = ["self"]
    def args(self, E): return NS(self=E.new(M, "Tape"))
    def old(self, E, a): return NS()
    def modifies(self, E, a): return [(a.self, None)]
    def post(self, E, old, a, r):
        nt = rep_tv(a.self); return [("constructed object", r is a.self), ("representation invariant", rep_wf(a.self)), ("head at 0", nt.pos == 0), ("blank tape", Forall([I], lambda q: nt.view(q) == 0))]
    def apply_call(self, E, f, argv):
        lo, hi = E.int("lo"), E.int("hi"); E.assume(And(lo <= 0, hi >= 0)); E.setfield(argv[0], "__tv__", TV(lambda p: z3.IntVal(0), z3.IntVal(0), lo, hi)); return argv[0]
class TRead(TapeOp):
    qualname = "Tape.read__"; params = ["self"]
    def spec(self, E, tv, a): return tv.view, tv.pos, tv.view(tv.pos)
class TReadPos(TapeOp):
    qualname = "Tape.read__long"; params = ["self", "pos"]
    def xargs(self, E): return dict(pos=E.int("p"))
    def spec(self, E, tv, a): return tv.view, tv.pos, tv.view(zi(a.pos))
class TWrite(TapeOp):
    qualname = "Tape.write"; params = ["self", "symb"]; writes = True; keeps = True
    def xargs(self, E): return dict(symb=E.int("s"))
    def spec(self, E, tv, a): w = zi(a.symb); pos = tv.pos; return (lambda p: z3.If(p == pos, w, tv.view(p))), pos, None
    def xpost(self, E, old, a, r, res): nt = rep_tv(a.self); return [("stored range unchanged", And(nt.lo == old.tv.lo, nt.hi == old.tv.hi))]
class TMove(TapeOp):
    qualname = "Tape.move"; params = ["self", "move_dir"]; writes = True
    def xargs(self, E): return dict(move_dir=E.int("d"))
    def xpre(self, E, a): return [("a unit move", Or(zi(a.move_dir) == 1, zi(a.move_dir) == -1))]
    def spec(self, E, tv, a): return tv.view, tv.pos + zi(a.move_dir), None
class TPosition(TapeOp):
    qualname = "Tape.position"; params = ["self"]
    def spec(self, E, tv, a): return tv.view, tv.pos, tv.pos
class TInRange(TapeOp):
    qualname = "Tape.in_range"; params = ["self", "pos"]
    def xargs(self, E): return dict(pos=E.int("p"))
    def spec(self, E, tv, a): return tv.view, tv.pos, And(tv.lo <= zi(a.pos), zi(a.pos) <= tv.hi)
    def xpost(self, E, old, a, r, res): return [("true exactly for the stored cells", zb(E.truth(r)) == res)]
class TCopy(TapeOp):
    qualname = "Tape._copy"; params = ["self"]
    def spec(self, E, tv, a): return tv.view, tv.pos, None
    def xpost(self, E, old, a, r, res):
        nt = rep_tv(r); return [("a new object", r is not a.self), ("no shared storage", r.fields["tape_"] is not a.self.fields["tape_"]), ("copy is well-formed", rep_wf(r)), ("same head", nt.pos == old.tv.pos), ("same range", And(nt.lo == old.tv.lo, nt.hi == old.tv.hi)), ("same cells", Forall([I], lambda q: nt.view(q) == old.tv.view(q)))]
    def xres(self, E, tv, a, res):
        o = a.self; return tape_at(E, o.fields["__t__"]) if "__t__" in o.fields else abs_tape(E, tv)
TAPE = [TInit(), TRead(), TReadPos(), TWrite(), TMove(), TPosition(), TInRange(), TCopy()]
# ---- machine look-up -----------------------------------------------------------
class Table(Obj): pass
def row_attr(E, o, name):
    F = o.fields
    if name == "at_":
        def at(E, i):
            E.prove("element of a vector in range", And(0 <= zi(i), zi(i) < zi(F["n"])), "safety"); return F["get"](zi(i))
        return at
    if name == "size_": return lambda E: F["n"]
    raise Unsupported("vector." + name)
class Lookup(Contract):
    """the table's cell of (state, symbol)"""
    module = M; qualname = "TuringMachine.Lookup"; params = ["self", "state", "symbol"]
    def args(self, E):
        def cell(q, s):
            return E.new(M, "LookupResult", symbol=SO(s, q), move=mvof(s, q), state=NX(s, q), undecided=E.bool("und"))
        row = lambda q: Obj(E, "ROVec", {"n": NSY, "get": lambda s: cell(q, s)})
        tm = E.new(M, "TuringMachine", transitions_=Obj(E, "ROVec", {"n": NST, "get": row}), num_states_=NST, num_symbols_=NSY); return NS(self=tm, state=E.int("q"), symbol=E.int("s"))
    def pre(self, E, a): q, s = zi(a.state), zi(a.symbol); return [("a cell of the table", And(0 <= q, q < NST, 0 <= s, s < NSY))]
    def post(self, E, old, a, r):
        if not isinstance(r, Obj): raise Unsupported("result")
        q, s, F = zi(a.state), zi(a.symbol), r.fields; return [("symbol written", zi(F["symbol"]) == SO(s, q)), ("move", zi(F["move"]) == mvof(s, q)), ("next state", zi(F["state"]) == NX(s, q))]
    def apply_call(self, E, f, argv):
        a = NS(**dict(zip(self.params, argv)))
        for l, c in self.pre(E, a): E.prove("call Lookup: requires " + l, c)
        q, s = zi(a.state), zi(a.symbol); E.assume(cell_wf(s, q)); return E.new(M, "LookupResult", symbol=SO(s, q), move=mvof(s, q), state=NX(s, q), undecided=E.bool("und"))
# ---- simulator --------------------------------------------------------------------
SREP = ("tm_", "tape_", "state_", "step_num_", "last_state_", "last_symbol_")
def mk_tm(E): return E.new(M, "TuringMachine", num_states_=NST, num_symbols_=NSY)
def mk_sim(E):
    return E.new(M, "DirectSimulator", tm_=mk_tm(E), tape_=abs_tape(E, fresh_tv(E)), state_=E.int("state"), step_num_=E.int("steps"), last_state_=E.int("ls"), last_symbol_=E.int("ly"))
def sim_ok(o):
    if not isinstance(o, Obj) or any(f not in o.fields for f in SREP): raise Unsupported("simulator representation changed")
def sim_wf(E, o):
    sim_ok(o); F = o.fields; tv = tv_of(F["tape_"]); v = tv.view
    return [("state in range", And(zi(F["state_"]) >= -1, zi(F["state_"]) < NST)), ("symbols in range", Forall([I], lambda p: And(v(p) >= 0, v(p) < NSY), patterns=vpat(v))), ("a machine", And(NST >= 1, NSY >= 1))]
def vpat(v):
    t = v(z3.Int("probe")); return (lambda p: [v(p)]) if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED else None
def snap(o): sim_ok(o); F = o.fields; return NS(state=zi(F["state_"]), n=zi(F["step_num_"]), tv=tv_of(F["tape_"]), tape=F["tape_"], tm=F["tm_"], ls=zi(F["last_state_"]), ly=zi(F["last_symbol_"]))
def sframe(o): return [(o, x) for x in ("state_", "step_num_", "last_state_", "last_symbol_")] + [(o.fields["tape_"], "__tv__")]
class SInit(Contract):
    module = M; qualname = "DirectSimulator._ctor__TuringMachine"; params = ["self", "tm"]
    def args(self, E): return NS(self=E.new(M, "DirectSimulator"), tm=mk_tm(E))
    def pre(self, E, a): return [("a machine", And(NST >= 1, NSY >= 1))]
    def modifies(self, E, a): return [(a.self, None)]
    def post(self, E, old, a, r):
        o = a.self; s = snap(o); return [("constructed object", r is o), ("machine stored", s.tm is a.tm), ("start state", s.state == 0), ("step counter is 0", s.n == 0), ("head at 0", s.tv.pos == 0), ("blank tape", Forall([I], lambda p: s.tv.view(p) == 0))] + sim_wf(E, o)
    def apply_call(self, E, f, argv):
        o, tm = argv; E.prove("call DirectSimulator: requires a machine", And(NST >= 1, NSY >= 1)); E.setfield(o, "tm_", tm)
        if E.ghost.get("trace"):
            E.assume([St(0) == 0, Po(0) == 0]); E.assume(Forall([I], lambda p: Ta(0, p) == 0, patterns=lambda p: [Ta(0, p)])); E.ghost["sim"] = o
            for k, v in dict(tape_=tape_at(E, z3.IntVal(0)), state_=St(0), step_num_=z3.IntVal(0), last_state_=E.int("u"), last_symbol_=E.int("u")).items(): E.setfield(o, k, v)
            return o
        lo, hi = E.int("lo"), E.int("hi"); E.assume(And(lo <= 0, hi >= 0))
        for k, v in dict(tape_=abs_tape(E, TV(lambda p: z3.IntVal(0), z3.IntVal(0), lo, hi)), state_=z3.IntVal(0), step_num_=z3.IntVal(0), last_state_=E.int("u"), last_symbol_=E.int("u")).items(): E.setfield(o, k, v)
        return o
class StepSafe(Contract):
    """one step of the mathematical machine (running machines only)"""
    module = M; qualname = "DirectSimulator.StepSafe"; params = ["self"]; safe = True
    def args(self, E): return NS(self=mk_sim(E))
    def pre(self, E, a): return sim_wf(E, a.self) + ([("not halted", zi(a.self.fields["state_"]) != -1)] if self.safe else [])
    def old(self, E, a): return snap(a.self)
    def modifies(self, E, a): return sframe(a.self)
    def post(self, E, old, a, r):
        s = snap(a.self); v, p, q = spec_step(old.tv.view, old.tv.pos, old.state); run = old.state != -1; sym = old.tv.view(old.tv.pos)
        out = [("next state", Implies(run, s.state == q)), ("head move", Implies(run, s.tv.pos == p)), ("step counted once", Implies(run, s.n == old.n + 1)), ("every cell", Forall([I], lambda x: Implies(run, s.tv.view(x) == v(x)), patterns=vpat(s.tv.view))),
               ("last state and symbol read", Implies(run, And(s.ls == old.state, s.ly == sym))), ("the stored range only grows", And(s.tv.lo <= old.tv.lo, s.tv.hi >= old.tv.hi)), ("the head is on a stored cell", And(s.tv.lo <= s.tv.pos, s.tv.pos <= s.tv.hi)), ("same tape and machine", s.tape is old.tape and s.tm is old.tm)]
        if not self.safe: out += [("a halted simulator is unchanged", Implies(Not(run), And(s.state == old.state, s.n == old.n, s.tv.pos == old.tv.pos, s.ls == old.ls, s.ly == old.ly))), ("a halted tape is unchanged", Forall([I], lambda x: Implies(Not(run), s.tv.view(x) == old.tv.view(x)), patterns=vpat(s.tv.view)))]
        return out + [(l, c) for l, c in sim_wf(E, a.self) if l != "a machine"]
    def apply_call(self, E, f, argv):
        o = argv[0]; sim_ok(o); t = o.fields["tape_"]
        if "__t__" in t.fields:
            n = zi(o.fields["step_num_"])
            if self.safe: E.prove("call StepSafe: requires a running machine", St(n) != -1)
            elif E.branch(zb(St(n) == -1)): return None
            unfold(E, n); set_sim(E, o, n + 1); return None
        return Contract.apply_call(self, E, f, argv)
def set_sim(E, o, n):
    t = o.fields["tape_"]; range_step(E, n)
    for k, v in dict(step_num_=n, state_=St(n), last_state_=St(n - 1), last_symbol_=Ta(n - 1, Po(n - 1))).items(): E.setfield(o, k, v)
    E.setfield(t, "__t__", n)
def range_step(E, n): E.assume(And(LOF(n) <= LOF(n - 1), HIF(n) >= HIF(n - 1), LOF(n) <= Po(n), Po(n) <= HIF(n)))
class Step(StepSafe):
    qualname = "DirectSimulator.Step"; safe = False
class Ranges(Lemma):
    """from the contracts of StepSafe and Tape: every visited cell is stored"""
    name = "stored range contains every position visited"
    def obligations(self, E):
        t, m = E.int("t"), E.int("m"); E.assume([t >= 0, m >= 0]); E.assume(And(LOF(0) <= Po(0), Po(0) <= HIF(0)))
        def u(k): return And(LOF(k + 1) <= LOF(k), HIF(k + 1) >= HIF(k), LOF(k + 1) <= Po(k + 1), Po(k + 1) <= HIF(k + 1), Implies(m == k + 1, Po(m) == Po(k + 1)))
        E.assume(Implies(m == 0, Po(m) == Po(0)))
        E.induct("contains", t, lambda k: Implies(m <= k, And(LOF(k) <= Po(m), Po(m) <= HIF(k))), unfold=u)
def on_trace(E, o):
    s = snap(o); return [("steps not negative", s.n >= 0), ("state on trace", s.state == St(s.n)), ("position on trace", s.tv.pos == Po(s.n)), ("tape on trace", Forall([I], lambda p: s.tv.view(p) == Ta(s.n, p), patterns=vpat(s.tv.view)))]
class Seek(Contract):
    """exactly the run, to the goal or to the halt, never past it"""
    module = M; qualname = "DirectSimulator.Seek"; params = ["self", "step_goal"]; names = {"self", "step_goal"}
    def args(self, E): o = mk_sim(E); E.ghost["o"] = o; E.ghost["g"] = E.int("goal"); return NS(self=o, step_goal=E.ghost["g"])
    def pre(self, E, a): return on_trace(E, a.self) + sim_wf(E, a.self)
    def old(self, E, a): s = snap(a.self); E.ghost["n0"] = s.n; return s
    def modifies(self, E, a): return sframe(a.self)
    def last(self, E, o, n0): s = snap(o); return ("last state and symbol of the run", Implies(s.n > n0, And(s.ls == St(s.n - 1), s.ly == Ta(s.n - 1, Po(s.n - 1)), St(s.n - 1) != -1)))
    def loops(self):
        def inv(E, env):
            o = E.ghost["o"]; s = snap(o); n0 = E.ghost["n0"]; return on_trace(E, o) + sim_wf(E, o) + [("never past the goal", Or(s.n <= E.ghost["g"], s.n == n0)), ("never backwards", s.n >= n0), self.last(E, o, n0)]
        return [Loop("seek", inv, head=lambda E, env: unfold(E, snap(E.ghost["o"]).n))]
    def post(self, E, old, a, r):
        s = snap(a.self); g = zi(a.step_goal); return on_trace(E, a.self) + [("halted or at the goal", Or(St(s.n) == -1, s.n == z3.If(g > old.n, g, old.n))), ("never past", Or(s.n <= g, s.n == old.n)), ("not backwards", s.n >= old.n), self.last(E, a.self, old.n)]
SIM = [Lookup(), SInit(), StepSafe(), Step(), Seek()]
CONTRACTS = TAPE + SIM
LEMMAS = ["Ranges"]
EXTS = dict(CC.EXTS); EXTS.update({("Tape", "havoc"): tape_havoc, ("ROVec", "attr"): row_attr})
