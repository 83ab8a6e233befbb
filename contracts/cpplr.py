"""Contracts of cpp/src/lin_recur.cpp (C22) over the mathematical trace; the
simulator and its tape are represented by their step number (cppsim)."""
import z3
from pyvc.engine import *
from pyvc.contract import *
from .tmspec import *
from .linrec import MINP, MAXP, mm, TC, tc_z3, never_halted
from . import cppsim as CS, cppcommon as CC, linrec as LR
from .cppsim import M, LOF, HIF, tape_at, snap, NST, NSY
def range_facts(E, t):
    """Ranges, and the tape's contract: blank outside the stored range"""
    E.assume(Forall([I], lambda x: Implies(Or(x < LOF(t), x > HIF(t)), Ta(t, x) == 0), patterns=lambda x: [Ta(t, x)])); E.assume(Forall([I], lambda m: Implies(And(0 <= m, m <= t), And(LOF(t) <= Po(m), Po(m) <= HIF(t))), patterns=lambda m: [Po(m)])); E.assume(Implies(t >= 0, And(LOF(t) <= Po(t), Po(t) <= HIF(t))))
def tt(o):
    if not isinstance(o, Obj) or "__t__" not in o.fields: raise Unsupported("tape without a step")
    return o.fields["__t__"]
class Half(Contract):
    """true exactly if the two half tapes agree in every cell"""
    module = M; qualname = "are_half_tapes_equal"; params = ["tape1", "start_pos1", "tape2", "start_pos2", "dir_offset"]; feas_ms = 60
    def args(self, E):
        t1, t2 = E.int("t1"), E.int("t2"); range_facts(E, t1); range_facts(E, t2)
        return NS(tape1=tape_at(E, t1), start_pos1=E.int("p1"), tape2=tape_at(E, t2), start_pos2=E.int("p2"), dir_offset=E.case(1, -1))
    def pre(self, E, a):
        t1, t2 = tt(a.tape1), tt(a.tape2); p1, p2 = zi(a.start_pos1), zi(a.start_pos2); d = zi(a.dir_offset); dd = p1 - p2
        return [("a unit direction", Or(d == 1, d == -1)), ("the second start is a stored cell", And(LOF(t2) <= p2, p2 <= HIF(t2))), ("the stored part of the first tape is entered", Ite(d == 1, HIF(t2) + 1 + dd >= LOF(t1), LOF(t2) - 1 + dd <= HIF(t1)))]
    def old(self, E, a): E.ghost["a"] = a; return NS()
    def loops(self):
        def inv(E, env):
            a = E.ghost["a"]; d = a.dir_offset; p1, p2 = zi(a.start_pos1), zi(a.start_pos2); t1, t2 = tt(a.tape1), tt(a.tape2); q1, q2 = zi(env.pos1), zi(env.pos2)
            pas = lambda x: And(p2 <= x, x < q2) if d == 1 else And(x <= p2, x > q2)
            return [("moves in step", q1 - p1 == q2 - p2), ("never backwards", q2 >= p2 if d == 1 else q2 <= p2), ("equal so far", Forall([I], lambda x: Implies(pas(x), Ta(t1, x + p1 - p2) == Ta(t2, x)), patterns=lambda x: [Ta(t2, x)]))]
        return [Loop("cells", inv)]
    def spec(self, E, a):
        t1, t2 = tt(a.tape1), tt(a.tape2); d = zi(a.dir_offset); p1, p2 = zi(a.start_pos1), zi(a.start_pos2)
        return Forall([I], lambda x: Implies(Ite(d == 1, x >= p2, x <= p2), Ta(t1, x + p1 - p2) == Ta(t2, x)), patterns=lambda x: [Ta(t2, x)])
    def post(self, E, old, a, r):
        if not isinstance(r, bool): raise Unsupported("result")
        s = self.spec(E, a); return [("true only if all cells agree", s)] if r else [("false only if some cell differs", Not(zb(s.as_z3(E))))]
    def apply_call(self, E, f, argv):
        a = NS(**dict(zip(self.params, argv)))
        for l, c in self.pre(E, a): E.prove("call are_half_tapes_equal: requires " + l, c)
        r = E.bool("equal"); E.assume(r == self.spec(E, a).as_z3(E)); return r
class Section(Contract):
    module = M; qualname = "are_sections_equal"; params = ["start_tape", "end_tape", "most_left_pos", "most_right_pos"]
    def args(self, E): return NS(start_tape=tape_at(E, E.int("t1")), end_tape=tape_at(E, E.int("t2")), most_left_pos=E.int("L"), most_right_pos=E.int("R"))
    def pre(self, E, a): return [("not empty", zi(a.most_left_pos) <= zi(a.most_right_pos))]
    def old(self, E, a): E.ghost["a"] = a; return NS()
    def eq(self, a, lo, hi): t1, t2 = tt(a.start_tape), tt(a.end_tape); return Forall([I], lambda x: Implies(And(lo <= x, x < hi), Ta(t1, x) == Ta(t2, x)), patterns=lambda x: [Ta(t1, x)])
    def loops(self): return [Loop("cells", lambda E, env: [("equal so far", self.eq(E.ghost["a"], zi(E.ghost["a"].most_left_pos), zi(env.pos))), ("in the section", And(zi(env.pos) >= zi(E.ghost["a"].most_left_pos), zi(env.pos) <= zi(E.ghost["a"].most_right_pos) + 1))])]
    def post(self, E, old, a, r):
        if not isinstance(r, bool): raise Unsupported("result")
        s = self.eq(a, zi(a.most_left_pos), zi(a.most_right_pos) + 1); return [("true only if all cells agree", s)] if r else [("false only if some cell differs", Not(zb(s.as_z3(E))))]
    def apply_call(self, E, f, argv):
        a = NS(**dict(zip(self.params, argv)))
        for l, c in self.pre(E, a): E.prove("call are_sections_equal: requires " + l, c)
        r = E.bool("equal"); E.assume(r == self.eq(a, zi(a.most_left_pos), zi(a.most_right_pos) + 1).as_z3(E)); return r
def ext_facts(E, i, n):
    """linrec.Extremes"""
    E.assume(Forall([I], lambda m: Implies(And(i <= m, m <= n), And(MINP(i, n) <= Po(m), Po(m) <= MAXP(i, n))), patterns=lambda m: [Po(m)])); E.assume(And(MINP(i, n) <= Po(i), MINP(i, n) <= Po(n), Po(n) <= MAXP(i, n), Po(i) <= MAXP(i, n)))
    w1, w2 = E.int("w1"), E.int("w2"); E.assume(Implies(i <= n, And(i <= w1, w1 <= n, i <= w2, w2 <= n, MINP(i, n) == Po(w1), MAXP(i, n) == Po(w2))))
    for w in (w1, w2): E.assume(Implies(And(0 <= i, i <= n), And(LOF(n) <= Po(w), Po(w) <= HIF(n))))
class Detect(Contract):
    """halting: the true first halting step, with the cell it halted on;
    recurrence: a true translated cycle (which never halts: linrec.Cycler) with
    its start, period and offset; otherwise the machine has not halted"""
    module = M; qualname = "LinRecurDetect"; params = ["tm", "max_steps"]; feas_ms = 60
    def args(self, E): E.ghost["trace"] = True; mx = E.int("max_steps"); E.ghost["mx"] = mx; return NS(tm=CS.mk_tm(E), max_steps=mx)
    def pre(self, E, a): return [("a machine", And(NST >= 1, NSY >= 1))]
    def loops(self):
        def sim(E): return E.ghost["sim"]
        def at(E, n): s = snap(sim(E)); return [("the simulator is the run", And(s.state == St(n), tt(s.tape) == n, s.ls == St(n - 1), s.ly == Ta(n - 1, Po(n - 1)))), ("at least one step", n >= 1), ("no halt before", Forall([I], lambda m: Implies(And(0 <= m, m < n), St(m) != -1), patterns=lambda m: [St(m)]))]
        def fr(E, f): o = sim(E); return [(o, x) for x in ("step_num_", "state_", "last_state_", "last_symbol_")] + [(o.fields["tape_"], "__t__")]
        def inv1(E, env): n = snap(sim(E)).n; return at(E, n) + [("reference configuration within the run", And(zi(env.init_step_num) >= 0, zi(env.init_step_num) <= n)), ("not halted at a checkpoint", Implies(n > 1, St(n) != -1))]
        def inv2(E, env):
            n = snap(sim(E)).n; i = zi(env.init_step_num); ti = tt(env.init_tape)
            return at(E, n) + [("the checkpoint", And(i >= 1, i <= n, ti == i, zi(env.init_state) == St(i), zi(env.init_pos) == Po(i), zi(env.steps_reset) == 2 * i, n <= 2 * i)), ("range visited so far", And(zi(env.most_left_pos) == MINP(i, n), zi(env.most_right_pos) == MAXP(i, n))), ("not halted since the checkpoint", Implies(n > 1, St(n) != -1)), ("steps beyond the checkpoint", Implies(n == 1, i == 1))]
        def pre2(E, env): i = zi(env.init_step_num); E.assume([MINP(i, i) == Po(i), MAXP(i, i) == Po(i)])
        def head2(E, env):
            n = snap(sim(E)).n; i = zi(env.init_step_num); E.assume([mm(MINP, i, n), mm(MAXP, i, n)]); range_facts(E, n + 1); range_facts(E, i); ext_facts(E, i, n + 1)
            E.assume(Forall([I], lambda x: Implies(x >= 0, And(HIF(x) >= LOF(x))), patterns=lambda x: [LOF(x)]))
        def hv(E, f, n):
            v = f.locals[n]
            if isinstance(v, Obj): return tape_at(E, E.int("ti")) if v.cls == "Tape" or getattr(v.cls, "name", "") == "Tape" else v
            return MISSING
        def bu(E, f, n, k): return tape_at(E, E.int("ti")) if n == "init_tape" else E.int(n)
        def hv2(E, f, n): v = f.locals[n]; return v if isinstance(v, Obj) else MISSING
        def hh(E, f, o, x):
            if x == "__t__": o.fields[x] = E.int("t"); return True
            return False
        return [Loop("search", inv1, frame=fr, havoc_local=hv, bind_unbound=bu, havoc_heap=hh), Loop("window", inv2, pre=pre2, head=head2, frame=fr, havoc_local=hv2, bind_unbound=bu, havoc_heap=hh)]
    def post(self, E, old, a, r):
        if not isinstance(r, Obj) or "lr_period" not in r.fields: raise Unsupported("result")
        F = r.fields; n = zi(F["steps_run"]); h, lr = zb(E.truth(F["is_halted"])), zb(E.truth(F["is_lin_recurrent"])); s, p, off = zi(F["lr_start_step"]), zi(F["lr_period"]), zi(F["lr_offset"])
        c, cells = TC(E, s, p)
        return [("halts are true halts, at the first halting step", Implies(h, And(n >= 1, St(n) == -1))), ("no halt before the reported step", Forall([I], lambda m: Implies(And(0 <= m, m < n), St(m) != -1), patterns=lambda m: [St(m)])),
                ("the cell halted on", Implies(h, And(zi(F["last_state"]) == St(n - 1), zi(F["last_symbol"]) == Ta(n - 1, Po(n - 1))))), ("not both", Not(And(h, lr))),
                ("the state recurs", Implies(lr, And(s >= 1, c))), ("the cells recur", Forall([I], lambda x: Implies(lr, cells(x)), patterns=lambda x: [Ta(s, x)])), ("offset of the recurrence", Implies(lr, off == Po(s + p) - Po(s))), ("the cycle was run", Implies(lr, n == s + p)),
                ("a machine not reported as halting has not halted", Implies(Not(h), St(n) != -1)), ("undecided only with the budget used up", Implies(And(Not(h), Not(lr)), n >= zi(a.max_steps))), ("reference configuration within the run", And(zi(F["max_ref_config_step"]) >= 0, zi(F["max_ref_config_step"]) <= n))]
CONTRACTS = [Half(), Section(), Detect()]
EXTS = dict(CS.EXTS)
