"""Contracts of the two enumerators' filters (C23): one verdict per machine, one
counter, one record in the stream of that verdict, and the undefined cell the
simulation stopped at handed to the expansion."""
import z3
from pyvc.engine import *
from pyvc.contract import *
from . import cppcommon as CC
from . import cppenum as CE
from . import cpptext as CT
M = "cpp"; I = z3.IntSort(); B = z3.BoolSort()
RES = ("is_halted", "is_lin_recurrent", "lr_start_step", "lr_period", "lr_offset", "last_state", "last_symbol", "max_ref_config_step", "steps_run")
# ---- output streams: what was put in, in order -------------------------------------
def stream(E): return Obj(E, "COut", {"log": ()})
def norm(log):
    out = []
    for t in log:
        if t[0] == "str" and out and out[-1][0] == "str": out[-1] = ("str", out[-1][1] + t[1])
        elif t != ("str", ""): out.append(t)
    return out
def same_log(log, want):
    a, b = norm(log), norm(want)
    if [x[0] for x in a] != [x[0] for x in b]: return z3.BoolVal(False)
    c = []
    for x, y in zip(a, b):
        if x[0] == "int": c.append(x[1] == y[1])
        elif x[0] == "str": c.append(z3.BoolVal(x[1] == y[1]))
        else: c.append(z3.BoolVal(x[1] is y[1]))
    return And(*c) if c else z3.BoolVal(True)
def logs(*ss):
    for s in ss:
        if not isinstance(s, Obj) or "log" not in s.fields: raise Unsupported("stream representation changed")
    return [s.fields["log"] for s in ss]
class Detect(Contract):
    module = M; qualname = "LinRecurDetect"; params = ["tm", "max_steps"]; assumed = True; why = "verified for C22"
    def apply_call(self, E, f, argv):
        tm, n = argv; a = E.ghost["a"]; E.prove("the machine to be filtered is the one run", tm is a.tm); E.prove("with the step budget", zi(n) == zi(a.self.fields["max_steps_"])); r = E.new(M, "LinRecurResult", **{k: E.bool(k) if k.startswith("is_") else E.int(k) for k in RES})
        E.assume(Not(And(zb(r.fields["is_halted"]), zb(r.fields["is_lin_recurrent"])))); E.prove("one run per machine", "res" not in E.ghost); E.ghost["res"] = dict(r.fields); return r
def timer_attr(E, o, name):
    if name == "time_elapsed_s": return lambda E: E.int("seconds")
    if name == "restart_timer": return lambda E: None
    if name == "_ctor__": return lambda E: o
    raise Unsupported("Timer." + name)
class Stats(Contract):
    """progress report: changes nothing"""
    module = M; qualname = "LinRecurEnum.print_stats"; params = ["self", "prefix"]
    def args(self, E): o = lr_self(E); return NS(self=o, prefix=CC.cstr(E, ["p"], {}))
    def modifies(self, E, a): return [(E.ghost["cout"], None)]
    def old(self, E, a): return NS(total=zi(a.self.fields["num_tms_total_"]))
    def post(self, E, old, a, r): return [("counters stay", zi(a.self.fields["num_tms_total_"]) == old.total)]
    def apply_call(self, E, f, argv): return None
def lr_self(E):
    E.ghost["cout"] = stream(E); tm = CE.mk_tm(E, "best"); tm.fields["present"] = E.bool("some_period")
    return E.new(M, "LinRecurEnum", allow_no_halt_=E.bool("allow"), max_steps_=E.int("max_steps"), only_unknown=E.bool("only_unknown"), out_halt_stream_=stream(E), out_inf_stream_=stream(E), out_unknown_stream_=stream(E), proc_id_=CC.cstr(E, ["id"], {}), timer_=E.new(M, "Timer"), last_print_=E.new(M, "Timer"),
                 num_tms_total_=E.int("total"), num_tms_halt_=E.int("halt"), num_tms_inf_=E.int("inf"), num_tms_unknown_=E.int("unknown"), max_period_=E.int("max_period"), max_period_tm_=tm)
def result(E, r, h, q, s):
    if not isinstance(r, Obj) or any(f not in r.fields for f in ("reached_undecided", "last_state", "last_symbol")): raise Unsupported("result representation changed")
    F = r.fields; return [("expanded exactly if it halted", zb(E.truth(F["reached_undecided"])) == h), ("at the cell it stopped at", Implies(h, And(zi(F["last_state"]) == q, zi(F["last_symbol"]) == s)))]
class Lin(Contract):
    module = M; qualname = "LinRecurEnum.filter_tm"; params = ["self", "tm"]
    def args(self, E): return NS(self=lr_self(E), tm=CE.mk_tm(E))
    def pre(self, E, a): E.ghost["a"] = a; return []
    def old(self, E, a): F = a.self.fields; return NS(**{k: zi(F[k]) for k in ("num_tms_total_", "num_tms_halt_", "num_tms_inf_", "num_tms_unknown_")})
    def modifies(self, E, a): F = a.self.fields; return [(a.self, None), (F["out_halt_stream_"], None), (F["out_inf_stream_"], None), (F["out_unknown_stream_"], None), (E.ghost["cout"], None)]
    def post(self, E, old, a, r):
        F = a.self.fields; R = E.ghost.get("res")
        if R is None: return [("the machine is run", False)]
        h, l = zb(R["is_halted"]), zb(R["is_lin_recurrent"]); n = lambda k: zi(F[k]); T = ("tm", a.tm); nl = ("str", "\n"); quiet = zb(E.truth(F["only_unknown"])); H, Y, U = logs(F["out_halt_stream_"], F["out_inf_stream_"], F["out_unknown_stream_"]); none = ()
        return result(E, r, h, R["last_state"], R["last_symbol"]) + [("one more machine", n("num_tms_total_") == old.num_tms_total_ + 1), ("counted as halting", n("num_tms_halt_") == old.num_tms_halt_ + Ite(h, 1, 0)), ("counted as recurrent", n("num_tms_inf_") == old.num_tms_inf_ + Ite(And(Not(h), l), 1, 0)), ("counted as unknown", n("num_tms_unknown_") == old.num_tms_unknown_ + Ite(And(Not(h), Not(l)), 1, 0)),
                ("record of a halting machine", Implies(And(h, Not(quiet)), same_log(H, [T, ("str", " | Halt "), ("int", R["steps_run"]), nl]))), ("no other halting record", Implies(Or(Not(h), quiet), same_log(H, none))),
                ("record of a recurrent machine", Implies(And(Not(h), l, Not(quiet)), same_log(Y, [T, ("str", " | Lin_Recur "), ("int", R["lr_period"]), ("str", " "), ("int", R["lr_offset"]), ("str", " <"), ("int", R["lr_start_step"]), nl]))), ("no other recurrent record", Implies(Or(h, Not(l), quiet), same_log(Y, none))),
                ("record of an unknown machine", Implies(And(Not(h), Not(l)), same_log(U, [T, nl]))), ("no other unknown record", Implies(Or(h, l), same_log(U, none)))]
# ---- lazy beaver ------------------------------------------------------------------------
class SimNew(Contract):
    module = M; qualname = "DirectSimulator._ctor__TuringMachine"; params = ["self", "tm"]; assumed = True; why = "verified for C22"
    def apply_call(self, E, f, argv):
        o, tm = argv; E.prove("the machine to be filtered is the one run", tm is E.ghost["a"].tm); E.prove("one run per machine", "sim" not in E.ghost); E.ghost["sim"] = o; o.fields.update(state_=z3.IntVal(0), step_num_=z3.IntVal(0), last_state_=E.int("uninit"), last_symbol_=E.int("uninit")); return o
class SimSeek(Contract):
    module = M; qualname = "DirectSimulator.Seek"; params = ["self", "step_goal"]; assumed = True; why = "verified for C22"
    def apply_call(self, E, f, argv):
        o, n = argv; E.prove("run with the step budget", zi(n) == zi(E.ghost["a"].self.fields["max_steps_"])); E.prove("the run begins at the start", And(z3.BoolVal(o is E.ghost["sim"]), zi(o.fields["step_num_"]) == 0)); v = {k: E.int(k) for k in ("state_", "step_num_", "last_state_", "last_symbol_")}; E.assume(And(v["state_"] >= -1, v["step_num_"] >= 0))
        for k in v: E.setfield(o, k, v[k])
        E.ghost["end"] = v
def set_attr(E, o, name):
    F = o.fields
    if name == "count_": return lambda E, x: z3.If(F["has"](zi(x)), z3.IntVal(1), z3.IntVal(0))
    if name in ("insert_", "emplace_"):
        def f(E, x): g, x = F["has"], zi(x); E.setfield(o, "has", lambda k: Or(k == x, g(k)))
        return f
    raise Unsupported("set." + name)
def set_havoc(E, o, field):
    if field == "has": f = E.func("has", I, B); o.fields["has"] = lambda k: f(k); return True
    return False
def lb_self(E):
    f = E.func("realised", I, B); non = stream(E); non.fields["present"] = E.bool("wants_nonhalt")
    return E.new(M, "LazyBeaverEnum", allow_no_halt_=False, max_steps_=E.int("max_steps"), steps_realized_=Obj(E, "CSet", {"has": lambda k: f(k)}), out_witness_stream_=stream(E), out_nonhalt_stream_=non, print_prefix_=CC.cstr(E, ["p"], {}), num_tms_total_=E.int("total"), num_tms_halt_=E.int("halt"))
class Missing(Contract):
    module = M; qualname = "LazyBeaverEnum.min_missing"; params = ["self"]
    def args(self, E): o = lb_self(E); E.ghost["has"] = o.fields["steps_realized_"].fields["has"]; return NS(self=o)
    def loops(self): return [Loop("search", lambda E, env: [("all smaller ones are realised", Forall([I], lambda k: Implies(And(1 <= k, k < zi(env.i)), E.ghost["has"](k)))), ("positive", zi(env.i) >= 1)])]
    def post(self, E, old, a, r): h = E.ghost["has"]; r = zi(r); return [("the least positive number not realised", And(r >= 1, Not(h(r)))), ("all smaller ones are realised", Forall([I], lambda k: Implies(And(1 <= k, k < r), h(k))))]
    def apply_call(self, E, f, argv): return E.int("lb")
class Lazy(Contract):
    module = M; qualname = "LazyBeaverEnum.filter_tm"; params = ["self", "tm"]
    def args(self, E): o = lb_self(E); E.assume(o.fields["num_tms_total_"] >= 0); return NS(self=o, tm=CE.mk_tm(E))
    def pre(self, E, a): E.ghost["a"] = a; return []
    def old(self, E, a): F = a.self.fields; return NS(total=zi(F["num_tms_total_"]), halt=zi(F["num_tms_halt_"]), has=F["steps_realized_"].fields["has"])
    def modifies(self, E, a): F = a.self.fields; return [(a.self, None), (F["steps_realized_"], None), (F["out_witness_stream_"], None), (F["out_nonhalt_stream_"], None)]
    def post(self, E, old, a, r):
        F = a.self.fields; v = E.ghost.get("end")
        if v is None: return [("the machine is run", False)]
        h = v["state_"] == -1; n = v["step_num_"]; W, N = logs(F["out_witness_stream_"], F["out_nonhalt_stream_"]); new = F["steps_realized_"].fields["has"]; T = ("tm", a.tm); nl = ("str", "\n"); first = And(h, Not(old.has(n))); want = zb(F["out_nonhalt_stream_"].fields["present"])
        return result(E, r, h, v["last_state_"], v["last_symbol_"]) + [("one more machine", zi(F["num_tms_total_"]) == old.total + 1), ("counted as halting", zi(F["num_tms_halt_"]) == old.halt + Ite(h, 1, 0)), ("step counts realised", Forall([I], lambda k: new(k) == Or(old.has(k), And(h, k == n)))),
                ("witness of a new step count", Implies(first, same_log(W, [("int", n), ("str", "\t"), T, nl]))), ("no other witness", Implies(Not(first), same_log(W, ()))), ("record of a machine that did not halt", Implies(And(Not(h), want), same_log(N, [T, nl]))), ("no other record", Implies(Or(h, Not(want)), same_log(N, ())))]
# ---- construction -----------------------------------------------------------------------
def mode(E, a, kw): return frozenset().union(*[x if isinstance(x, frozenset) else [x] for x in a])
def truncates(m): return isinstance(m, frozenset) and "out" in m and not m & {"app", "in", "ate"}
def ofstream(E, a, kw):
    o = Obj(E, "COut", {"log": (), "file": None, "present": True})
    if a: out_attr(E, o, "open_")(E, *a)
    return o
def out_attr(E, o, name):
    if name == "open_":
        def f(E, fn, m=frozenset(["out"])):
            E.prove("output file is opened once, empty", o.fields.get("file") is None and truncates(m)); E.setfield(o, "file", fn)
        return f
    if name in ("close_", "flush_"): return lambda E: None
    raise Unsupported("ofstream." + name)
def named(E, n): return Obj(E, "CStr", {"v": None, "ch": (lambda f: lambda i: f(i))(E.func(n, I, I)), "n": E.int(n + "_len"), "__name__": n})
def goes_to(o, fn): return isinstance(o, Obj) and isinstance(o.fields.get("file"), Obj) and o.fields["file"].fields.get("__name__") == fn.fields["__name__"]
class LinNew(Contract):
    module = M; qualname = "LinRecurEnum._ctor__bool_long_string_string_string_string_bool_bool"; params = ["self", "allow_no_halt", "max_steps", "out_halt_filename", "out_inf_filename", "out_unknown_filename", "proc_id", "compress_output", "only_unknown_in"]
    def args(self, E): return NS(self=E.new(M, "LinRecurEnum"), allow_no_halt=E.bool("allow"), max_steps=E.int("n"), out_halt_filename=named(E, "halt"), out_inf_filename=named(E, "inf"), out_unknown_filename=named(E, "unknown"), proc_id=named(E, "id"), compress_output=False, only_unknown_in=E.bool("only"))
    def modifies(self, E, a): return [(a.self, None)]
    def post(self, E, old, a, r):
        F = a.self.fields; z = lambda k: zi(F[k]) == 0
        return [("constructed object", r is a.self), ("expansion option", zb(E.truth(F["allow_no_halt_"])) == zb(a.allow_no_halt)), ("step budget", zi(F["max_steps_"]) == zi(a.max_steps)), ("output option", zb(E.truth(F["only_unknown"])) == zb(a.only_unknown_in)), ("counters start at 0", And(z("num_tms_total_"), z("num_tms_halt_"), z("num_tms_inf_"), z("num_tms_unknown_"), z("max_period_"))), ("halting machines go to their file", goes_to(F["out_halt_stream_"], a.out_halt_filename)), ("recurrent machines go to their file", goes_to(F["out_inf_stream_"], a.out_inf_filename)), ("unknown machines go to their file", goes_to(F["out_unknown_stream_"], a.out_unknown_filename)), ("separate streams", len({id(F[k]) for k in ("out_halt_stream_", "out_inf_stream_", "out_unknown_stream_")}) == 3)]
class LazyNew(Contract):
    module = M; qualname = "LazyBeaverEnum._ctor__long_string_string_string"; params = ["self", "max_steps", "out_witness_filename", "out_nonhalt_filename", "print_prefix"]
    def args(self, E): return NS(self=E.new(M, "LazyBeaverEnum"), max_steps=E.int("n"), out_witness_filename=named(E, "witness"), out_nonhalt_filename=named(E, "nonhalt"), print_prefix=named(E, "p"))
    def pre(self, E, a): return [("name lengths", And(zi(a.out_nonhalt_filename.fields["n"]) >= 0, zi(a.out_witness_filename.fields["n"]) >= 0))]
    def modifies(self, E, a): return [(a.self, None)]
    def post(self, E, old, a, r):
        F = a.self.fields; has = F["steps_realized_"].fields["has"]; want = zi(a.out_nonhalt_filename.fields["n"]) > 0; non = F["out_nonhalt_stream_"]
        return [("constructed object", r is a.self), ("halts are kept open", Not(zb(E.truth(F["allow_no_halt_"])))), ("step budget", zi(F["max_steps_"]) == zi(a.max_steps)), ("nothing realised yet", Forall([I], lambda k: Not(has(k)))), ("counters start at 0", And(zi(F["num_tms_total_"]) == 0, zi(F["num_tms_halt_"]) == 0)), ("witnesses go to their file", goes_to(F["out_witness_stream_"], a.out_witness_filename)), ("machines that do not halt are written exactly if a file is named", want if non is not None else Not(want)), ("and go to that file", non is None or goes_to(non, a.out_nonhalt_filename))]
# ---- one machine of a file ----------------------------------------------------------------
def ifstream(E, a, kw): E.prove("the named file is opened", isinstance(a[0], Obj) and a[0].fields.get("__name__") == "file"); E.prove("one file", "in" not in E.ghost); E.ghost["in"] = Obj(E, "CIn", {"taken": z3.IntVal(0)}); return E.ghost["in"]
class ReadAt(Contract):
    """skips the lines before and reads one machine"""
    module = M; qualname = "ReadTuringMachine__string_long"; params = ["filename", "line_num"]
    def args(self, E): return NS(filename=named(E, "file"), line_num=E.int("line_num"))
    def pre(self, E, a): E.ghost["a"] = a; return [("lines count from 1", zi(a.line_num) >= 1)]
    def modifies(self, E, a): return []
    def loops(self):
        def inv(E, env): k = zi(E.ghost["in"].fields["taken"]); return [("lines skipped", And(0 <= k, k == zi(E.ghost["a"].line_num) - zi(env.i), zi(env.i) >= 1))]
        return [Loop("skip", inv, frame=lambda E, fr: [(E.ghost["in"], "taken")], bind_unbound=lambda E, fr, n, k: Opaque(n), havoc_local=lambda E, fr, n: Opaque(n) if isinstance(fr.locals[n], Obj) else MISSING)]
    def post(self, E, old, a, r): return [("the machine read is that line's", isinstance(r, Obj) and "__line__" in r.fields), ("its line number", zi(r.fields["__line__"]) == zi(a.line_num) if isinstance(r, Obj) and "__line__" in r.fields else False)]
    def apply_call(self, E, f, argv): raise Unsupported("ReadTuringMachine")
CONTRACTS = [LinNew(), LazyNew(), ReadAt(), Stats(), Lin(), Missing(), Lazy(), Detect(), SimNew(), SimSeek()]
EXTS = dict(CT.EXTS); EXTS.update({("builtin", "cpp_stream"): lambda E, a, kw: E.ghost["cout"] if "cout" in E.ghost else stream(E), ("Timer", "attr"): timer_attr, ("CSet", "attr"): set_attr, ("builtin", "cpp_set"): lambda E, a, kw: Obj(E, "CSet", {"has": lambda k: z3.BoolVal(False)}), ("builtin", "cpp_mode"): mode, ("builtin", "cpp_basic_ofstream"): ofstream, ("COut", "attr"): out_attr, ("builtin", "cpp_basic_ifstream"): ifstream, ("CSet", "havoc"): set_havoc})
