"""Contracts of Lin_Recur_Detect.py (C07) over the mathematical trace.

St(t), Po(t), Ta(t, p): the machine's run (tmspec).  MINP/MAXP(i, n): leftmost
and rightmost head position in steps i..n.  A simulator is represented by its
step number (C01: it is then exactly the trace there); LOF/HIF(t) bound the
cells the tape object stores at step t (nothing but blanks outside)."""
import z3
from pyvc.engine import *
from pyvc.contract import *
from .tmspec import *
from . import direct as DT
M = "Lin_Recur_Detect"; DS = "Direct_Simulator"; HL = "Halting_Lib"; B = z3.BoolSort()
MINP, MAXP = z3.Function("min_pos", I, I, I), z3.Function("max_pos", I, I, I)
LOF, HIF = z3.Function("stored_from", I, I), z3.Function("stored_to", I, I)
USED = z3.Function("used_states", I, I, I, B); LASTV = z3.Function("last_visit", I, I, I)
BL = z3.Int("blank_symbol"); IST = z3.Int("start_state")
def mm(f, i, n): return f(i, n + 1) == (Ite(Po(n + 1) < f(i, n), Po(n + 1), f(i, n)) if f is MINP else Ite(Po(n + 1) > f(i, n), Po(n + 1), f(i, n)))
def TC(E, s, p, sk=None):
    """the configuration at s + p is that at s, shifted, on the cells that matter"""
    off = Po(s + p) - Po(s); L, R = MINP(s, s + p), MAXP(s, s + p)
    def cells(x): return Implies(Ite(off > 0, x >= L, Ite(off < 0, x <= R, And(L <= x, x <= R))), Ta(s, x) == Ta(s + p, x + off))
    return And(p >= 1, St(s) != -1, St(s + p) == St(s)), cells
def never_halted(E, n): return Forall([I], lambda m: Implies(And(0 <= m, m <= n), St(m) != -1), patterns=lambda m: [St(m)])
class Cycler(Lemma):
    """TC(s, p) and no halt in s..s+p: the shifted equality at j carries over to
    j + 1, the head stays among the compared cells and never halts"""
    name = "a translated cycle repeats forever and starts to hold at every later step"
    def obligations(self, E):
        s, p, j = E.int("s"), E.int("p"), E.int("j"); off = Po(s + p) - Po(s); L, R = MINP(s, s + p), MAXP(s, s + p); E.assume([s >= 0, p >= 1, j >= 0])
        ok = lambda x: Ite(off > 0, x >= L, Ite(off < 0, x <= R, And(L <= x, x <= R)))
        c, cells = TC(E, s, p); E.assume(c); E.assume(Forall([I], cells, patterns=lambda x: [Ta(s, x)]))
        E.assume(Forall([I], lambda m: Implies(And(s <= m, m <= s + p), And(L <= Po(m), Po(m) <= R, St(m) != -1)), patterns=lambda m: [Po(m)]))
        # hypothesis for all i <= j: state and position correspond, the head is among the compared cells, no halt
        H = lambda i: And(St(s + p + i) == St(s + i), Po(s + p + i) == Po(s + i) + off, ok(Po(s + i)), St(s + i) != -1)
        x = E.int("x")
        E.prove("initially", And(Implies(s + p + 0 == s + p, And(St(s + p) == St(s), Po(s + p) == Po(s) + off)), ok(Po(s)))); 
        E.assume(Forall([I], lambda i: Implies(And(0 <= i, i <= j), H(i)), patterns=lambda i: [Po(s + i)])); E.assume(H(j))
        a, b = s + j, s + p + j
        E.assume(Forall([I], lambda x: Implies(ok(x), Ta(a, x) == Ta(b, x + off)), patterns=lambda x: [Ta(a, x)])); E.assume(Implies(ok(Po(a)), Ta(a, Po(a)) == Ta(b, Po(a) + off)))
        unfold(E, a); unfold(E, b)
        E.prove("same symbol read", Ta(a, Po(a)) == Ta(b, Po(b)))
        E.prove("states correspond after one more step", St(b + 1) == St(a + 1)); E.prove("positions correspond after one more step", Po(b + 1) == Po(a + 1) + off)
        E.assume(Implies(ok(x), Ta(a, x) == Ta(b, x + off)))
        E.prove("cells correspond after one more step", Implies(ok(x), Ta(a + 1, x) == Ta(b + 1, x + off)))
        # head among the compared cells and no halt at j + 1: inside the first period by definition, later by the hypothesis one period earlier
        i = j + 1 - p; E.assume(Implies(i >= 0, H(i))); E.assume(Implies(And(s <= s + j + 1, s + j + 1 <= s + p), And(L <= Po(s + j + 1), Po(s + j + 1) <= R, St(s + j + 1) != -1)))
        E.assume([Implies(i >= 0, And(z3.IntVal(0) <= i)), Po(s + p + i) == Po(s + (j + 1)), St(s + p + i) == St(s + (j + 1)), Po(s + (j + 1)) == Po(s + j + 1), St(s + (j + 1)) == St(s + j + 1)])
        E.prove("the head stays among the compared cells", ok(Po(s + j + 1))); E.prove("no halt", St(s + j + 1) != -1)
class Mono(Lemma):
    """TC(s, p) implies TC(s + 1, p): with Cycler's facts for j = 1 and all head positions"""
    name = "recurrence holds at every later start"
    def obligations(self, E):
        s, p = E.int("s"), E.int("p"); off = Po(s + p) - Po(s); L, R = MINP(s, s + p), MAXP(s, s + p); ok = lambda x: Ite(off > 0, x >= L, Ite(off < 0, x <= R, And(L <= x, x <= R)))
        t = s + 1; E.assume([p >= 1, St(s + p + 1) == St(s + 1), St(s + 1) != -1, Po(s + p + 1) == Po(s + 1) + off]); x = E.int("x")
        E.assume(Forall([I], lambda x: Implies(ok(x), Ta(t, x) == Ta(s + p + 1, x + off)), patterns=lambda x: [Ta(t, x)])); E.assume(Implies(ok(x), Ta(t, x) == Ta(s + p + 1, x + off)))
        # every head position from s on is among the compared cells, and the extremes of steps t..t+p are head positions
        w1, w2 = E.int("w1"), E.int("w2"); E.assume([And(t <= w, w <= t + p, ok(Po(w))) for w in (w1, w2)]); E.assume([MINP(t, t + p) == Po(w1), MAXP(t, t + p) == Po(w2), St(t + p) == St(s + p + 1), Po(t + p) == Po(s + p + 1)])
        E.assume(Ta(t + p, x + off) == Ta(s + p + 1, x + off))
        c, cells = TC(E, t, p); E.prove("states recur", c)
        E.prove("same offset", Po(t + p) - Po(t) == off); E.assume(x + (Po(t + p) - Po(t)) == x + off); E.prove("cells recur", Implies(Ta(t + p, x + (Po(t + p) - Po(t))) == Ta(t + p, x + off), cells(x)))
class Extremes(Lemma):
    name = "the range visited contains every position and is attained"
    def obligations(self, E):
        i, n = E.int("i"), E.int("n"); W = E.func("W", I, I); E.assume([n >= 0, MINP(i, i) == Po(i), MAXP(i, i) == Po(i), W(0) == i, MINP(i, i + 0) == MINP(i, i), MAXP(i, i + 0) == MAXP(i, i)])
        m = E.int("m"); E.assume(And(i <= m))
        E.induct("contains", n, lambda k: Implies(m <= i + k, And(MINP(i, i + k) <= Po(m), Po(m) <= MAXP(i, i + k))), unfold=lambda k: And(z3.substitute(mm(MINP, i, i + k), (i + k + 1, i + (k + 1))), z3.substitute(mm(MAXP, i, i + k), (i + k + 1, i + (k + 1))), Implies(m == i + (k + 1), Po(m) == Po(i + (k + 1)))))
        E.induct("attained", n, lambda k: And(i <= W(k), W(k) <= i + k, MINP(i, i + k) == Po(W(k))), unfold=lambda k: And(z3.substitute(mm(MINP, i, i + k), (i + k + 1, i + (k + 1))), W(k + 1) == Ite(Po(i + (k + 1)) < MINP(i, i + k), i + (k + 1), W(k))))
# ---- abstract simulator ------------------------------------------------------------
def tape_at(E, t): o = E.new(DS, "DirectTape"); o.fields["__t__"] = t; o.fields["position"] = Po(t); o.fields["init_symbol"] = BL; return o
def range_facts(E, t):
    """from the contracts of DirectTape: blanks outside, every visited cell inside"""
    E.assume(Forall([I], lambda x: Implies(Or(x < LOF(t), x > HIF(t)), Ta(t, x) == BL), patterns=lambda x: [Ta(t, x)])); E.assume(Forall([I], lambda m: Implies(And(0 <= m, m <= t), And(LOF(t) <= Po(m), Po(m) <= HIF(t))), patterns=lambda m: [Po(m)])); E.assume(And(LOF(t) <= Po(t), Po(t) <= HIF(t)))
class A(Contract):
    assumed = True; why = "verified for C01"; module = DS
class SimNew(A):
    qualname = "DirectSimulator.__init__"; params = ["self", "tm", "initialize", "blank_init_symbol"]
    def apply_call(self, E, f, argv):
        o = argv[0]; E.assume([St(0) == IST, Po(0) == 0, IST != -1]); E.ghost["sim"] = o
        for k, v in dict(tm=argv[1], halted=False, state=St(0), tape=tape_at(E, z3.IntVal(0)), step_num=z3.IntVal(0)).items(): E.setfield(o, k, v)
class SimStep(A):
    qualname = "DirectSimulator.step"; params = ["self"]
    def apply_call(self, E, f, argv):
        o = argv[0]; n = zi(o.fields["step_num"])
        if E.branch(zb(St(n) == -1)): return None
        unfold(E, n); set_sim(E, o, n + 1)
class SimSeek(A):
    qualname = "DirectSimulator.seek"; params = ["self", "target_step_num"]
    def apply_call(self, E, f, argv):
        o, t = argv; n = zi(o.fields["step_num"]); E.prove("call seek: the machine does not halt up to there", Forall([I], lambda m: Implies(And(n <= m, m <= zi(t)), St(m) != -1))); E.branch(zi(t) > n) and set_sim(E, o, zi(t))
def set_sim(E, o, n):
    E.setfield(o, "step_num", n); E.setfield(o, "state", St(n)); t = o.fields["tape"]; E.setfield(t, "__t__", n); E.setfield(t, "position", Po(n)); E.setfield(o, "halted", St(n) == -1)
    for x in ("halt_score", "halt_from_state", "halt_from_symbol"): E.setfield(o, x, Obj(E, "HaltData", {"what": x, "n": n}))
class TCopy(A):
    qualname = "DirectTape.copy"; params = ["self"]
    def apply_call(self, E, f, argv): return tape_at(E, argv[0].fields["__t__"])
class TLeft(A):
    qualname = "DirectTape.pos_leftmost"; params = ["self"]
    def apply_call(self, E, f, argv): t = argv[0].fields["__t__"]; range_facts(E, t); return LOF(t)
class TRight(A):
    qualname = "DirectTape.pos_rightmost"; params = ["self"]
    def apply_call(self, E, f, argv): t = argv[0].fields["__t__"]; range_facts(E, t); return HIF(t)
class TRead(A):
    qualname = "DirectTape.read_pos"; params = ["self", "pos"]
    def apply_call(self, E, f, argv): return Ta(argv[0].fields["__t__"], zi(argv[1]))
# ---- comparisons -------------------------------------------------------------------
class Half(Contract):
    """true exactly if the two half tapes agree in every cell"""
    module = M; qualname = "are_half_tapes_equal"; params = ["tape1", "start_pos1", "tape2", "start_pos2", "dir_offset"]
    def args(self, E):
        t1, t2 = E.int("t1"), E.int("t2"); range_facts(E, t1); range_facts(E, t2); E.ghost.update(t1=t1, t2=t2)
        return NS(tape1=tape_at(E, t1), start_pos1=E.int("p1"), tape2=tape_at(E, t2), start_pos2=E.int("p2"), dir_offset=E.case(1, -1))
    def pre(self, E, a):
        t1, t2 = a.tape1.fields["__t__"], a.tape2.fields["__t__"]; p1, p2 = zi(a.start_pos1), zi(a.start_pos2); d = zi(a.dir_offset); dd = p1 - p2
        # the second tape stores its start, and when it ends, the first tape's stored part has been entered
        return [("a unit direction", Or(d == 1, d == -1)), ("the second start is a stored cell", And(LOF(t2) <= p2, p2 <= HIF(t2))), ("the stored part of the first tape is entered", Ite(d == 1, HIF(t2) + 1 + dd >= LOF(t1), LOF(t2) - 1 + dd <= HIF(t1)))]
    def old(self, E, a): E.ghost["a"] = a; return NS(p1=zi(a.start_pos1), p2=zi(a.start_pos2))
    def loops(self):
        def inv(E, env):
            a = E.ghost["a"]; d = a.dir_offset; p1, p2 = zi(a.start_pos1), zi(a.start_pos2); t1, t2 = E.ghost["t1"], E.ghost["t2"]; q1, q2 = zi(env.pos1), zi(env.pos2)
            pas = lambda x: And(p2 <= x, x < q2) if d == 1 else And(x <= p2, x > q2)
            return [("moves in step", q1 - p1 == q2 - p2), ("never backwards", q2 >= p2 if d == 1 else q2 <= p2), ("equal so far", Forall([I], lambda x: Implies(pas(x), Ta(t1, x + p1 - p2) == Ta(t2, x)), patterns=lambda x: [Ta(t2, x)]))]
        return [Loop("cells", inv)]
    def spec(self, E, a):
        t1, t2 = a.tape1.fields["__t__"], a.tape2.fields["__t__"]; d = zi(a.dir_offset); p1, p2 = zi(a.start_pos1), zi(a.start_pos2)
        return Forall([I], lambda x: Implies(Ite(d == 1, x >= p2, x <= p2), Ta(t1, x + p1 - p2) == Ta(t2, x)), patterns=lambda x: [Ta(t2, x)])
    def post(self, E, old, a, r):
        if not isinstance(r, bool): raise Unsupported("result")
        s = self.spec(E, a)
        return [("true only if all cells agree", s)] if r else [("false only if some cell differs", Not(zb(s.as_z3(E))))]
    def apply_call(self, E, f, argv):
        a = NS(**dict(zip(self.params, argv)))
        for l, c in self.pre(E, a): E.prove("call are_half_tapes_equal: requires " + l, c)
        s = self.spec(E, a).as_z3(E); r = E.bool("equal"); E.assume(r == s); return r
class Section(Contract):
    module = M; qualname = "are_sections_equal"; params = ["start_tape", "end_tape", "most_left_pos", "most_right_pos", "offset"]
    def args(self, E): return NS(start_tape=tape_at(E, E.int("t1")), end_tape=tape_at(E, E.int("t2")), most_left_pos=E.int("L"), most_right_pos=E.int("R"), offset=E.int("off"))
    def pre(self, E, a): return [("not empty", zi(a.most_left_pos) <= zi(a.most_right_pos))]
    def old(self, E, a): E.ghost["a"] = a; return NS()
    def eq(self, a, lo, hi):
        t1, t2 = a.start_tape.fields["__t__"], a.end_tape.fields["__t__"]; o = zi(a.offset); return Forall([I], lambda x: Implies(And(lo <= x, x < hi), Ta(t1, x) == Ta(t2, x + o)), patterns=lambda x: [Ta(t1, x)])
    def loops(self): return [Loop("cells", lambda E, env: [("equal so far", self.eq(E.ghost["a"], zi(E.ghost["a"].most_left_pos), zi(E.ghost["a"].most_left_pos) + zi(env.extra["k"])))])]
    def post(self, E, old, a, r):
        if not isinstance(r, bool): raise Unsupported("result")
        s = self.eq(a, zi(a.most_left_pos), zi(a.most_right_pos) + 1)
        return [("true only if all cells agree", s)] if r else [("false only if some cell differs", Not(zb(s.as_z3(E))))]
    def apply_call(self, E, f, argv):
        a = NS(**dict(zip(self.params, argv)))
        for l, c in self.pre(E, a): E.prove("call are_sections_equal: requires " + l, c)
        r = E.bool("equal"); E.assume(r == self.eq(a, zi(a.most_left_pos), zi(a.most_right_pos) + 1).as_z3(E)); return r
def ext_facts(E, i, n):
    """Extremes"""
    E.assume(Forall([I], lambda m: Implies(And(i <= m, m <= n), And(MINP(i, n) <= Po(m), Po(m) <= MAXP(i, n))), patterns=lambda m: [Po(m)])); E.assume(And(MINP(i, n) <= Po(i), MINP(i, n) <= Po(n), Po(n) <= MAXP(i, n), Po(i) <= MAXP(i, n)))
    w1, w2 = E.int("w1"), E.int("w2"); E.assume(Implies(i <= n, And(i <= w1, w1 <= n, i <= w2, w2 <= n, MINP(i, n) == Po(w1), MAXP(i, n) == Po(w2))))
    for w in (w1, w2):
        for t in (n,): E.assume(Implies(And(0 <= i, i <= n), And(LOF(t) <= Po(w), Po(w) <= HIF(t))))
def sim_at(E, o, n): return [("the simulator is the run", And(zi(o.fields["step_num"]) == n, zi(o.fields["state"]) == St(n), zi(o.fields["tape"].fields["position"]) == Po(n), o.fields["tape"].fields["__t__"] == n))]
def tc_z3(E, s, p):
    c, cells = TC(E, s, p); return And(c, Forall([I], cells, patterns=lambda x: [Ta(s, x)]).as_z3(E))
def sim_havoc(E, fr, o, f):
    if o is E.ghost["sim"] and f in ("halt_score", "halt_from_state", "halt_from_symbol"): return True
    return False
def sim_frame(E, fr): o = E.ghost["sim"]; return [(o, x) for x in ("step_num", "state", "halted")] + [(o.fields["tape"], x) for x in ("__t__", "position")]
class Check(Contract):
    """true exactly if the recurrence holds from init_step on"""
    module = M; qualname = "check_recur"; params = ["tm", "init_step", "period"]; feas_ms = 100
    def args(self, E): s, p = E.int("s"), E.int("p"); E.ghost.update(s=s, p=p); return NS(tm=Obj(E, "TM", {}), init_step=s, period=p)
    def pre(self, E, a): s, p = zi(a.init_step), zi(a.period); return [("a start and a period", And(s >= 0, p >= 1)), ("the machine does not halt up to there", never_halted(E, s + p))]
    def loops(self):
        def inv(E, env):
            s = E.ghost["s"]; k = zi(env.extra["k"]); n = s + k; return sim_at(E, E.ghost["sim"], n) + [("range visited so far", And(zi(env.most_left_pos) == MINP(s, n), zi(env.most_right_pos) == MAXP(s, n)))]
        def pre(E, env): s = E.ghost["s"]; E.assume([MINP(s, s) == Po(s), MAXP(s, s) == Po(s), MINP(s, s + 0) == MINP(s, s), MAXP(s, s + 0) == MAXP(s, s), St(s + 0) == St(s), Po(s + 0) == Po(s)])
        def head(E, env):
            s = E.ghost["s"]; n = s + zi(env.extra["k"]); E.assume([mm(MINP, s, n), mm(MAXP, s, n), St(n) != -1 if False else Implies(n <= s + E.ghost["p"], St(n) != -1)])
            for f in (MINP, MAXP): E.assume(f(s, s + (zi(env.extra["k"]) + 1)) == f(s, n + 1))
        def ex(E, env): s, p = E.ghost["s"], E.ghost["p"]; range_facts(E, s); range_facts(E, s + p); ext_facts(E, s, s + p)
        return [Loop("period", inv, pre=pre, head=head, exit=ex, frame=sim_frame, havoc_heap=sim_havoc, havoc_local=lambda E, fr, n: MISSING)]
    def post(self, E, old, a, r):
        if not isinstance(r, bool): raise Unsupported("result")
        s, p = zi(a.init_step), zi(a.period); c, cells = TC(E, s, p)
        if r: return [("true only if the state recurs", c), ("true only if the cells recur", Forall([I], cells, patterns=lambda x: [Ta(s, x)]))]
        return [("false only if the configuration does not recur", Not(tc_z3(E, s, p)))]
    def apply_call(self, E, f, argv):
        a = NS(**dict(zip(self.params, argv)))
        for l, c in self.pre(E, a): E.prove("call check_recur: requires " + l, c)
        r = E.bool("recurs"); E.assume(r == E.ghost["TCB"](zi(a.init_step), zi(a.period))); return r
class PSearch(Contract):
    """the earliest start from which the recurrence with this period holds"""
    module = M; qualname = "period_search"; params = ["tm", "init_step", "period"]
    def args(self, E): E.ghost["TCB"] = E.func("recurs_from", I, I, B); return NS(tm=Obj(E, "TM", {}), init_step=E.int("s"), period=E.int("p"))
    def pre(self, E, a):
        s, p = zi(a.init_step), zi(a.period); T = E.ghost["TCB"]
        return [("a start and a period", And(s >= 0, p >= 1)), ("it recurs from there", T(s, p)), ("the machine does not halt up to there", never_halted(E, s + p))]
    def old(self, E, a):
        T = E.ghost["TCB"]; p = zi(a.period); E.ghost["a"] = a
        # Mono, iterated
        E.assume(Forall([I, I], lambda x, y: Implies(And(0 <= x, x <= y, T(x, p)), T(y, p)), patterns=lambda x, y: [(T(x, p), T(y, p))])); return NS()
    def loops(self):
        def inv(E, env):
            a = E.ghost["a"]; T = E.ghost["TCB"]; p = zi(a.period); lo, hi = zi(env.low), zi(env.high); return [("bounds", And(-1 <= lo, lo < hi, hi <= zi(a.init_step))), ("recurs from the upper bound", T(hi, p)), ("not from the lower bound", Or(lo == -1, Not(T(lo, p))))]
        return [Loop("bisect", inv, variant=lambda E, env, old: [("the interval shrinks", zi(env.high) - zi(env.low) < old)], snapshot=lambda E, env: zi(env.high) - zi(env.low))]
    def post(self, E, old, a, r):
        T = E.ghost["TCB"]; p = zi(a.period); return [("recurs from the result", And(zi(r) >= 0, zi(r) <= zi(a.init_step), T(zi(r), p))), ("from no earlier step", Forall([I], lambda x: Implies(And(0 <= x, x < zi(r)), Not(T(x, p)))))]
    def apply_call(self, E, f, argv):
        a = NS(**dict(zip(self.params, argv)))
        for l, c in self.pre(E, a): E.prove("call period_search: requires " + l, c)
        r = E.int("earliest")
        for l, c in self.post(E, None, a, r): E.assume(c)
        return r
class Report(Contract):
    """what is written to the status, as proved for C20"""
    module = HL; assumed = True; why = "verified for C20"
    def __init__(self, name, params): self.qualname, self.params = name, params
    def apply_call(self, E, f, argv): return E.ghost[self.qualname](E, dict(zip(self.params, argv)))
class Detect(Contract):
    module = M; qualname = "lin_detect_not_min"; params = ["tm", "max_steps", "result", "bb_status"]; feas_ms = 60
    def hooks(self, E):
        def halting(E, kw):
            o = E.ghost["sim"]; n = zi(o.fields["step_num"]); st = kw["tm_status"]
            E.prove("status set is the caller's", st is E.ghost["bb"]); E.prove("reported halting step is the first halting step", And(zi(kw["halt_steps"]) == n, St(n) == -1, Implies(n >= 1, St(n - 1) != -1)))
            for k, w in (("halt_score", "halt_score"), ("from_state", "halt_from_state"), ("from_symbol", "halt_from_symbol")): E.prove("reported %s is the simulator's" % k, isinstance(kw.get(k), Obj) and kw[k] is o.fields[w])
            E.ghost["halted"] = True
        def recur(E, kw):
            i, n = zi(E.ghost["init"](E)), zi(E.ghost["sim"].fields["step_num"]); su, ls = kw["states_to_ignore"], kw["states_last_seen"]
            E.prove("states of the cycle", Forall([I], lambda q: su.fields["has"](q) == USED(i, n, q))); E.prove("last visits before the end of the cycle", Forall([I], lambda q: And(ls.fields["has"](q) == (LASTV(n, q) >= 0), Implies(ls.fields["has"](q), ls.fields["get"](q) == LASTV(n, q)))))
            E.ghost["recur"] = True
        def nothalt(E, kw): E.prove("declared infinite only on success", E.ghost["res"].fields["success"] is True or E.truth(E.ghost["res"].fields["success"])); E.ghost["inf"] = True
        E.ghost.update(set_halting=halting, set_inf_recur=recur, set_not_halting=nothalt)
    def args(self, E):
        self.hooks(E); mx = E.int("max_steps"); E.assume(mx >= 0); res = Obj(E, "LRR", {"success": False, "start_step": 0, "period": 0, "offset": 0}); bb = Obj(E, "BB", {}); E.ghost.update(res=res, bb=bb, mx=mx)
        return NS(tm=Obj(E, "TM", {}), max_steps=mx, result=res, bb_status=bb)
    def modifies(self, E, a): return [(a.result, None)]
    def loops(self):
        def amap(E, env):
            for nm, v in list(env.fr.locals.items()):
                if isinstance(v, PySet) : env.fr.locals[nm] = Obj(E, "SU", {"has": lambda q: z3.BoolVal(False)})
                if isinstance(v, PyDict):
                    ks = list(v.d.items())
                    if len(ks) != 1: raise Unsupported("initial last-seen map")
                    kk, vv = ks[0]; key = kk[1] if isinstance(kk, tuple) and len(kk) == 2 else kk
                    E.prove("the start state is seen at step 0", zi(vv) == 0); env.fr.locals[nm] = Obj(E, "LSM", {"has": lambda q: q == St(0), "get": lambda q: z3.IntVal(0)})
        def maps(E, env): return [v for v in env.fr.locals.values() if isinstance(v, Obj) and v.cls == "LSM"][0]
        def su(E, env): return ([v for v in env.fr.locals.values() if isinstance(v, Obj) and v.cls == "SU"] or [None])[0]
        def ls_ok(E, env, n):
            m = maps(E, env); return ("last visits so far", Forall([I], lambda q: And(m.fields["has"](q) == (LASTV(n, q) >= 0), Implies(m.fields["has"](q), m.fields["get"](q) == LASTV(n, q))), patterns=lambda q: [LASTV(n, q)]))
        def run(E, env):
            n = zi(E.ghost["sim"].fields["step_num"]); return n
        def succ(E): return zb(E.truth(E.ghost["res"].fields["success"]))
        def cyc(E, env, n):
            i = zi(env.init_step_num); S = su(E, env)
            return [("success only with a recurrence", Implies(succ(E), And(i >= 1, n > i, tc_z3(E, i, n - i), zi(env.offset) == Po(n) - Po(i) if env.fr.locals.get("offset", MISSING) is not MISSING else False))), ("not halted on success", Implies(succ(E), St(n) != -1))] + ([("states of the cycle so far", Forall([I], lambda q: S.fields["has"](q) == USED(i, n, q), patterns=lambda q: [USED(i, n, q)]))] if S is not None else [])
        def inv1(E, env):
            n = run(E, env); out = sim_at(E, E.ghost["sim"], n) + [("at least one step", n >= 1), ls_ok(E, env, n), ("halted flag", E.truth_eq(E.ghost["sim"].fields["halted"], St(n) == -1)), ("the previous step had not halted", St(n - 1) != -1)]
            if env.fr.locals.get("init_step_num", MISSING) is MISSING: return out + [("nothing yet", And(n == 1, Not(succ(E)), zi(env.steps_reset) == n if env.fr.locals.get("steps_reset", MISSING) is not MISSING else True))]
            i = zi(env.init_step_num); return out + cyc(E, env, n) + [("not halted after a search", Implies(n > 1, St(n) != -1)), ("searched up to the reset step", And(Implies(Not(succ(E)), n == zi(env.steps_reset)), n <= zi(env.steps_reset), zi(env.steps_reset) == 2 * i, i >= 1, Or(E.ghost["mx"] == 0, i < E.ghost["mx"])))]
        def pre1(E, env): amap(E, env); E.assume([LASTV(0, q) == -1 for q in ()]); E.assume(Forall([I], lambda q: LASTV(1, q) == Ite(St(0) == q, 0, -1), patterns=lambda q: [LASTV(1, q)])); E.ghost["init"] = lambda E: env.init_step_num
        def pick(E): 
            if E.ghost.get("pk") is None: E.ghost["pk"] = True; E.ghost["first"] = E.choose(2) == 0
        def hv(E, fr, n):
            pick(E); v = fr.locals[n]
            if isinstance(v, Obj): return v
            if E.ghost["first"]: return v
            return MISSING
        def bu(E, fr, n, k):
            pick(E)
            if E.ghost["first"]: return MISSING
            if n in ("init_tape",): return tape_at(E, E.int("ti"))
            if n == "states_used": h = E.func("su", I, B); return Obj(E, "SU", {"has": lambda q: h(q)})
            return E.int(n)
        def head2(E, env):
            n = run(E, env); i = zi(env.init_step_num); E.assume([mm(MINP, i, n), mm(MAXP, i, n)]); E.assume(Forall([I], lambda q: And(LASTV(n + 1, q) == Ite(St(n) == q, n, LASTV(n, q)), LASTV(n, q) >= -1), patterns=lambda q: [LASTV(n + 1, q)])); E.assume(Forall([I], lambda q: USED(i, n + 1, q) == Or(USED(i, n, q), St(n) == q), patterns=lambda q: [USED(i, n + 1, q)]))
            range_facts(E, n + 1); range_facts(E, i); E.ghost["ext"] = (i, n + 1); ext_facts(E, i, n + 1)
        def pre2(E, env):
            amap(E, env); i = zi(env.init_step_num); E.assume([MINP(i, i) == Po(i), MAXP(i, i) == Po(i)]); E.assume(Forall([I], lambda q: Not(USED(i, i, q)), patterns=lambda q: [USED(i, i, q)])); E.ghost["init"] = lambda E: env.init_step_num
            E.ghost["pc2"] = (i, zi(env.steps_reset))
        def inv2(E, env):
            n = run(E, env); i = zi(env.init_step_num); it = env.init_tape
            return sim_at(E, E.ghost["sim"], n) + cyc(E, env, n) + [ls_ok(E, env, n), ("range visited so far", And(zi(env.most_left_pos) == MINP(i, n), zi(env.most_right_pos) == MAXP(i, n))), ("the checkpoint", And(it.fields["__t__"] == i, zi(env.init_pos) == Po(i), zi(env.init_state) == St(i))), ("within the search", And(i >= 1, i <= n, n <= zi(env.steps_reset), zi(env.steps_reset) == 2 * i, Or(E.ghost["mx"] == 0, i < E.ghost["mx"]))), ("halted flag", E.truth_eq(E.ghost["sim"].fields["halted"], St(n) == -1)), ("the previous step had not halted", St(n - 1) != -1), ("no halt in the search so far", Implies(n > i, St(n) != -1))]
        def hv2(E, fr, n):
            v = fr.locals[n]
            return v if isinstance(v, Obj) else MISSING
        def fr1(E, fr): return sim_frame(E, fr) + [(E.ghost["res"], "success")] + [(v, f) for v in fr.locals.values() if isinstance(v, Obj) and v.cls in ("LSM", "SU") for f in v.fields]
        def hh(E, fr, o, f):
            if E.ghost.get("first") is False or E.ghost.get("pc2"): pass
            if o is E.ghost["res"] and f == "success": o.fields[f] = E.bool("success"); return True
            if o is E.ghost["sim"] and f == "halted": o.fields[f] = E.bool("halted"); return True
            return sim_havoc(E, fr, o, f)
        return [Loop("search", inv1, pre=pre1, havoc_local=hv, bind_unbound=bu, frame=fr1, havoc_heap=hh), Loop("window", inv2, pre=pre2, head=head2, havoc_local=hv2, bind_unbound=lambda E, fr, n, k: E.int(n), frame=fr1, havoc_heap=hh)]
    def post(self, E, old, a, r):
        F = a.result.fields; n = zi(E.ghost["sim"].fields["step_num"]); g = E.ghost
        bud = [("fewer than twice the budget", Or(g["mx"] == 0, n == 1, n < 2 * g["mx"]))]
        if g.get("recur") or g.get("inf"):
            s, p = zi(F["start_step"]), zi(F["period"]); c, cells = TC(E, s, p)
            return bud + [("success reported", E.truth(F["success"])), ("both statuses set", bool(g.get("recur") and g.get("inf"))), ("the state recurs", And(c, s >= 0)), ("the cells recur", Forall([I], cells, patterns=lambda x: [Ta(s, x)])), ("the offset", zi(F["offset"]) == Po(s + p) - Po(s))]
        return bud + [("no success without a status", Not(zb(E.truth(F["success"])))), ("a halt within the budget is reported", Or(bool(g.get("halted")), St(n) != -1, n == 1))] + ([] if g.get("halted") else [("searched the whole budget", Or(n == 1, And(g["mx"] != 0, n >= g["mx"])))])
def su_attr(E, o, name):
    if name != "add": return MISSING
    def f(E, q): h = o.fields["has"]; q = zi(q); E.note_write("field", o, "has"); o.fields["has"] = lambda x: Or(x == q, h(x))
    return f
def lsm_set(E, o, k, v):
    h, g = o.fields["has"], o.fields["get"]; k, v = zi(k), zi(v); E.note_write("field", o, "has"); E.note_write("field", o, "get"); o.fields["has"] = lambda i: Or(i == k, h(i)); o.fields["get"] = lambda i: Ite(i == k, v, g(i)); return True
def lhav(E, o, f):
    if f == "has": h = E.func("has", I, B); o.fields["has"] = lambda i: h(i)
    else: g = E.func("get", I, I); o.fields["get"] = lambda i: g(i)
    return True
EXTS = {("SU", "attr"): su_attr, ("SU", "havoc"): lhav, ("LSM", "setitem"): lsm_set, ("LSM", "havoc"): lhav, ("LRR", "setattr"): lambda E, o, n, v: (E.setfield(o, n, v), True)[1]}
CONTRACTS = [Half(), Section(), Check(), PSearch(), Detect(), SimNew(), SimStep(), SimSeek(), TCopy(), TLeft(), TRight(), TRead(),
             Report("set_halting", ["tm_status", "halt_steps", "halt_score", "from_state", "from_symbol"]), Report("set_inf_recur", ["tm_status", "states_to_ignore", "states_last_seen"]), Report("set_not_halting", ["tm_status", "inf_reason"])]
LEMMAS = ["Cycler", "Mono", "Extremes"]
