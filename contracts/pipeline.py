"""Contracts of Macro_Simulator (C21).  Ghost facts about the machine: H (it
halts), STEPS/SCORE/FROM (when, with what score, from which cell).  The
simulator is abstract, with the guarantees proved under C04 and C06: an
infinite condition means it never halts; when it stops its counters are the
machine's, the step counter as long as steps are counted, which only rules
without step counts (linear ones) interrupt; its recurring states and last
visits are true as long as steps are counted."""
from .wcommon import *
from .wcommon import EXTS as WX
M = "Macro_Simulator"; TM = "Macro.Turing_Machine"
CODES = ["Running", "Halt", "Inf_Repeat", "Undefined", "Gave_Up"]
def facts(E): E.ghost.update(STEPS=E.int("true steps"), SCORE=E.int("true score"), FSTATE=E.int("from state"), FSYM=E.int("from symbol"))
def wraps(E, m):
    """m is the machine or a stack of macro machines on it"""
    return m is E.ghost["tm"] or isinstance(m, Obj) and m.cls == "Stack" and wraps(E, m.fields["base"])
def options(E):
    return Obj(E, "Options", {"reverse_engineer": E.case(True, False), "lin_steps": E.int("lin_steps"), "lin_min": E.bool("lin_min"), "run_sim": E.case(True, False), "block_size": E.case(None, E.int("block_size")), "max_loops": E.int("max_loops"), "max_block_mult": E.int("mbm"), "block_mult": E.int("bm"), "max_block_size": E.int("mbs"),
                              "backsymbol": E.bool("backsymbol"), "ctl": E.case(True, False)})
def sim_options(E): return Obj(E, "Options", {"max_loops": E.int("max_loops"), "time": Opaque("time"), "tape_limit": E.int("limit"), "prover": E.case(True, False), "limited_rules": E.bool("lr"), "recursive": E.bool("rec"), "exp_linear_rules": E.bool("linear"), "compute_steps": E.bool("steps")})
def mk_stack(E, c, args, kw):
    if c.name == "Block_Macro_Machine":
        v = dict(zip(["base_machine", "block_size", "offset"], args)); v.update(kw); E.prove("block machine: at least one cell, no offset", And(zi(v["block_size"]) >= 1, v.get("offset") is None))
    else: v = dict(zip(["base_machine"], args)); v.update(kw)
    E.prove("macro machine: stands for the machine", wraps(E, v["base_machine"])); return Obj(E, "Stack", {"base": v["base_machine"]})
def sim_new(E, c, args, kw):
    v = dict(zip(["machine", "options", "verbose_prefix", "init_tape", "is_base_simulator"], args)); v.update(kw); o = v["options"].fields
    E.prove("simulated: the machine given", v["machine"] is E.ghost["m"]); E.prove("simulated: as asked, from the start", And(v["options"] is E.ghost["opts"], v.get("init_tape", True) is True, v.get("is_base_simulator", True) is True))
    E.prove("steps are counted only if every rule in use counts them", Not(And(zb(E.truth(o["exp_linear_rules"])), zb(E.truth(o["compute_steps"])))))
    comp = o["compute_steps"]; comp = comp if isinstance(comp, bool) else E.branch(comp); E.ghost["comp"] = comp
    s = Obj(E, "Sim", {"op_state": "Running", "num_loops": z3.IntVal(0), "step_num": z3.IntVal(0), "states_last_seen": Opaque("last visits") if comp else None, "inf_recur_states": MISSING, "inf_reason": MISSING, "prover": Obj(E, "Prover", {}) if o["prover"] is True else None, "tape": Obj(E, "STape", {"size": E.int("size")}), "state": Opaque("state"), "dir": Opaque("dir"), "op_details": ()})
    E.ghost["sim"] = s; return s
REASONS = ["io_pb2.INF_MACRO_STEP", "io_pb2.INF_CHAIN_STEP", "io_pb2.INF_PROOF_SYSTEM"]
def sim_step(E, s):
    F = s.fields; g = E.ghost
    if F["op_state"] != "Running": return
    E.setfield(s, "num_loops", zi(F["num_loops"]) + 1); E.setfield(s, "step_num", E.int("step_num")); E.assume(F["step_num"] >= 0); E.setfield(F["tape"], "size", E.int("size")); op = E.case(*CODES); after(E, s, op)
def after(E, s, op):
    F = s.fields; g = E.ghost; E.setfield(s, "op_state", op)
    if op == "Inf_Repeat": E.assume(Not(g["H"])); E.setfield(s, "inf_reason", E.case(*[External(x) for x in REASONS])); E.setfield(s, "inf_recur_states", Opaque("recurring")); g["recur"] = F["inf_recur_states"]
    if op in ("Halt", "Undefined"):
        E.assume(g["H"]); E.setfield(s, "op_details", PyList(E, [(g["FSYM"], g["FSTATE"]), Opaque("pos")]))
        if g["comp"]: E.assume(F["step_num"] == g["STEPS"])
def sim_attr(E, o, name):
    if name in o.fields:
        v = o.fields[name]
        if v is MISSING: raise PyRaise("AttributeError", name)
        return v
    if name == "step": return lambda E: sim_step(E, o)
    if name == "get_nonzeros":
        def f(E): return E.ghost["SCORE"] if o.fields["op_state"] in ("Halt", "Undefined") else E.int("nonzeros")
        return f
    if name.startswith("num_"): return Opaque(name)
    return MISSING
def st_attr(E, o, name):
    if name == "compressed_size": return lambda E: o.fields["size"]
    if name == "get_top_symbol": return lambda E: Opaque("symbol")
    return MISSING
class Simulate(Wrapper):
    module = M; qualname = "simulate_machine"; params = ["machine", "options", "sim_info", "bb_status"]; feas_ms = 40
    exts = dict(WX); exts.update({("new", "Simulator"): sim_new, ("Sim", "attr"): sim_attr, ("STape", "attr"): st_attr, ("Prover", "attr"): lambda E, o, n: Opaque(n), ("external", "math.log10"): lambda E, x: Opaque("log10"), ("builtin", "int"): lambda E, a, k: Opaque("int") if a and isinstance(a[0], Opaque) else MISSING})
    def args(self, E):
        record(E); facts(E); o = sim_options(E); m = Obj(E, "Stack", {"base": E.ghost["tm"]}); E.ghost.update(m=m, opts=o); return NS(machine=m, options=o, sim_info=msg(E), bb_status=E.ghost["st"])
    def setup(self, E):
        def halting(E, a):
            g = E.ghost; E.prove("the status written is the machine's", a.tm_status is g["st"]); E.prove("recorded as halting only when it halts", g["H"])
            if g["comp"]: E.prove("the true number of steps", a.halt_steps is not None and zi(a.halt_steps) == g["STEPS"])
            E.prove("the true score", a.halt_score is not None and zi(a.halt_score) == g["SCORE"]); E.prove("the true halting cell", And(zi(a.from_state) == g["FSTATE"], zi(a.from_symbol) == g["FSYM"]) if a.from_state is not None and a.from_symbol is not None else False)
            g["ev"].append(("halt",)); decided(E, True)
        def recur(E, a):
            g = E.ghost; s = g["sim"].fields; E.prove("the status written is the machine's", a.tm_status is g["st"])
            E.prove("quasihalting from the recurring states and last visits of a machine shown infinite", And(Not(g["H"]), a.states_to_ignore is g.get("recur"), a.states_last_seen is s["states_last_seen"])); E.prove("and only when last visits are kept", Or(a.states_last_seen is None, g["comp"])); g["ev"].append(("quasi",))
        status_stubs(E, halting, recur)
    def modifies(self, E, a): return [(a.options, "compute_steps"), (a.sim_info, None)]
    def loops(self):
        def hh(E, fr, o, f):
            if o is E.ghost["sim"]:
                if f == "op_state":
                    op = E.case(*CODES); after(E, o, op); return True
                if f in ("inf_recur_states", "inf_reason", "op_details"): return True
            return False
        fr = lambda E, f: [(E.ghost["sim"], x) for x in ("num_loops", "step_num", "op_state", "inf_reason", "inf_recur_states", "op_details")] + [(E.ghost["sim"].fields["tape"], "size")]
        def inv(E, env): s = E.ghost["sim"].fields; return [("steps are not negative", zi(s["step_num"]) >= 0)]
        return [Loop("run", inv, havoc_heap=hh, frame=fr)]
    def post(self, E, old, a, r):
        g = E.ghost; v = verdicts(E); op = g["sim"].fields["op_state"]
        if op in ("Running", "Gave_Up"): return [("undecided when the simulation is", not v)]
        if op == "Inf_Repeat": return [("at most the infinite verdict", v in ([], v[:1]) and all(e[0] == "inf" for e in v)), ("its reason is the simulator's", all(e[1] is g["sim"].fields["inf_reason"] for e in v)), ("quasihalting is settled or left open with it", not v or any(e[0] in ("quasi", "quasi open") for e in g["ev"]))]
        return [("at most the halting verdict", all(e[0] == "halt" for e in v))]
class RunOptions(Wrapper):
    module = M; qualname = "run_options"; params = ["tm_record", "options"]; feas_ms = 40
    exts = dict(WX); exts.update({("new", "Block_Macro_Machine"): mk_stack, ("new", "Backsymbol_Macro_Machine"): mk_stack})
    def args(self, E): r = record(E); facts(E); o = options(E); E.ghost.update(rec=r, opts=o); return NS(tm_record=r, options=o)
    def pre(self, E, a): b = a.options.fields["block_size"]; h = E.ghost["st"].fields["halt_status"].fields; return [("sizes", And(True if b is None else b >= 0, a.options.fields["max_loops"] >= 0)), ("undecided so far", Not(h["is_decided"]))]
    def modifies(self, E, a): return [(a.tm_record, None), (E.ghost["st"].fields["halt_status"], None)]
    def setup(self, E):
        status_stubs(E); open_ = lambda E: E.prove("nothing is tried on a decided machine", Not(zb(E.ghost["st"].fields["halt_status"].fields["is_decided"])))
        def inf(E, a): E.prove("the record's machine is examined", a.tm is E.ghost["tm"]); r = E.case(True, False); E.assume(Not(E.ghost["H"]) if r else z3.BoolVal(True)); return r
        stub(E, "Reverse_Engineer_Filter", "is_infinite", ["tm"], inf)
        def lin(E, a):
            g = E.ghost; E.prove("recurrence: the record's machine and status", And(a.tm is g["tm"], a.bb_status is g["st"], a.lr_info is g["rec"].fields["proto"].fields["filter"].fields["lin_recur"])); p = a.lr_info.fields["parameters"].fields
            E.prove("recurrence: with the budget asked for", And(zi(p["max_steps"]) == g["opts"].fields["lin_steps"], zb(E.truth(p["find_min_start_step"])) == g["opts"].fields["lin_min"])); k = E.choose(3)
            if k: E.assume(g["H"] if k == 1 else Not(g["H"])); g["ev"].append(("halt",) if k == 1 else ("inf", None)); decided(E, k == 1)
        stub(E, "Lin_Recur_Detect", "filter", ["tm", "lr_info", "bb_status"], lin)
        def bf(E, a): E.prove("block size search: the record's machine", a.machine is E.ghost["tm"]); k = E.int("best block size"); E.assume(k >= 1); a.result.fields["best_block_size"] = k
        stub(E, "Macro.Block_Finder", "block_finder", ["machine", "options", "params", "result"], bf)
        def ctl(E, a):
            E.prove("CTL: the record at hand", a.tm_record is E.ghost["rec"]); E.prove("CTL: sizes", And(zi(a.block_size) >= 1, zi(a.offset) >= 0, zi(a.offset) < zi(a.block_size))); E.prove("CTL: variant", a.type in ("CTL1", "CTL2", "CTL3", "CTL4")); r = E.case(True, False)
            if r: E.assume(Not(E.ghost["H"])); E.ghost["ev"].append(("inf", None)); decided(E, False)
            return r
        stub(E, "CTL_Filter", "filter", ["tm_record", "type", "block_size", "offset", "cutoff", "use_backsymbol"], ctl)
        def sim(E, a):
            g = E.ghost; open_(E); E.prove("simulation: the machine or a macro machine on it, its status", And(wraps(E, a.machine), a.bb_status is g["st"], a.options is g["opts"])); k = E.choose(3)
            if k: E.assume(g["H"] if k == 1 else Not(g["H"])); g["ev"].append(("halt",) if k == 1 else ("inf", None)); decided(E, k == 1)
        stub(E, M, "simulate_machine", Simulate.params, sim)
    def post(self, E, old, a, r): v = verdicts(E); return [("at most one verdict", len(v) <= 1), ("and it is true", And(*[E.ghost["H"] if e[0] == "halt" else Not(E.ghost["H"]) for e in v]) if v else True)]
class Timer(Wrapper):
    """running out of time is no verdict"""
    module = M; qualname = "run_timer"; params = ["tm_record", "options", "time_limit_sec"]
    exts = dict(WX); exts[("Alarm", "attr")] = None
    def args(self, E): r = record(E); E.ghost["rec"] = r; return NS(tm_record=r, options=Obj(E, "Options", {}), time_limit_sec=Opaque("limit"))
    def setup(self, E):
        status_stubs(E); E.exts.pop(("Alarm", "attr"), None)
        def run(E, a):
            E.prove("the record at hand", a.tm_record is E.ghost["rec"])
            if E.choose(2): raise PyRaise("AlarmException", "time limit")
            E.ghost["ran"] = True
        stub(E, M, "run_options", ["tm_record", "options"], run)
        for m in ("set_alarm", "cancel_alarm"): stub(E, "Alarm", "Alarm." + m, ["self", "time"][:2 if m == "set_alarm" else 1], lambda E, a: None)
    def modifies(self, E, a): return [(a.tm_record, None)]
    def post(self, E, old, a, r): return [("no verdict of its own", not verdicts(E))]
CONTRACTS = [Simulate(), RunOptions(), Timer()]; LEMMAS = []
