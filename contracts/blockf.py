"""Contract of Block_Finder.block_finder (C21): a block size of at least one cell is always chosen (and the internal assertion holds).
Ghost: ST(k) the condition of the run after k loops, LEN(k) the number of tape blocks then (machine fixed)."""
import ast
from .wcommon import *
from .wcommon import EXTS as WX
M = "Macro.Block_Finder"; SIMM = "Macro.Simulator"
def sim_new(E, c, args, kw):
    v = dict(zip(["machine", "options"], args)); v.update(kw); base = v["machine"] is E.ghost["machine"]; st, ln = (E.ghost["ST"], E.ghost["LEN"]) if base else (E.func("st", I, B), E.func("len", I, I))
    return Obj(E, "Sim", {"num_loops": z3.IntVal(0), "st": lambda k: st(k), "len": lambda k: ln(k), "left": E.func("left", I, I)})
def advance(E, s, k): E.note_write("sim", s, "*") if False else None; E.setfield(s, "num_loops", k)
def sim_attr(E, o, name):
    F = o.fields; st, k = F["st"], zi(F["num_loops"])
    if name == "num_loops": return F["num_loops"]
    if name == "op_state": return "Running" if E.branch(st(k)) else E.case("Halt", "Inf_Repeat", "Undefined")
    if name == "step":
        def f(E): k = zi(F["num_loops"]); E.assume(Implies(Not(st(k)), Not(st(k + 1)))); E.setfield(o, "num_loops", Ite(st(k), k + 1, k))
        return f
    if name == "loop_seek":
        def f(E, n):
            k = zi(F["num_loops"]); m = E.int("loops"); E.assume(And(m >= k, Or(m >= zi(n), Not(st(m))), Implies(m > k, And(m <= zi(n), Forall([I], lambda j: Implies(And(k <= j, j < m), st(j)), patterns=lambda j: [st(j)]).as_z3(E))))); E.setfield(o, "num_loops", m)
        return f
    if name == "tape": return Obj(E, "STape", {"tape": PyList(E, halves(E, o))})
    if name in ("steps_from_chain", "steps_from_macro", "step_num"): return Opaque(name)
    return MISSING
def halves(E, o):
    """two halves whose lengths add up to LEN"""
    n = o.fields["len"](zi(o.fields["num_loops"])); a = o.fields["left"](zi(o.fields["num_loops"])); E.assume(And(a >= 1, n - a >= 1)); return [Obj(E, "Half", {"n": a}), Obj(E, "Half", {"n": n - a})]
def stack(E, c, args, kw):
    if c.name == "Block_Macro_Machine": v = dict(zip(["base_machine", "block_size", "offset"], args)); v.update(kw); E.prove("block machine: at least one cell, no offset", And(zi(v["block_size"]) >= 1, v.get("offset") is None))
    else: v = {"base_machine": args[0]}
    return Obj(E, "Stack", {"base": v["base_machine"]})
def copt(E, o): return Obj(E, "Options", dict(o.fields))
class Finder(Contract):
    module = M; qualname = "block_finder"; params = ["machine", "options", "params", "result"]; feas_ms = 80
    exts = dict(WX); exts.update({("new", "Simulator"): sim_new, ("Sim", "attr"): sim_attr, ("new", "Block_Macro_Machine"): stack, ("new", "Backsymbol_Macro_Machine"): stack, ("Half", "len"): lambda E, o: o.fields["n"], ("external", "copy.copy"): copt})
    def args(self, E):
        m = Obj(E, "AbsTM", {}); E.ghost.update(machine=m, ST=E.func("running", I, B), LEN=E.func("blocks", I, I))
        p = Obj(E, "P", {"max_block_size": E.int("max"), "compression_search_loops": E.int("loops"), "block_mult": E.int("mult"), "mult_sim_loops": E.int("sim_loops"), "max_block_mult": E.int("ahead")})
        return NS(machine=m, options=Obj(E, "Options", {"verbose_block_finder": False, "compute_steps": E.bool("steps"), "prover": E.bool("prover")}), params=p, result=msg(E, best_block_size=None))
    def pre(self, E, a): f = a.params.fields; return [("no negative parameters", And(f["max_block_size"] >= 0, f["compression_search_loops"] >= 0, f["block_mult"] >= 0, f["max_block_mult"] >= 0))]
    def setup(self, E):
        stub(E, M, "uncompress_tape", ["compr_tape"], lambda E, a: (lambda n, f: (E.assume(n >= 0), SymSeq(E, lambda i: f(i), n, "list"))[1])(E.int("cells"), E.func("tape", I, I)))
        stub(E, M, "compression_efficiency", ["tape", "k"], lambda E, a: E.int("size"))
    def loops(self):
        def sim(env): return env.fr.locals["sim"]
        def inv0(E, env):
            s = sim(env).fields; k = zi(s["num_loops"]); w = zi(env.worst_loop); return [("loops so far", k == zi(env.extra["k"])), ("worst loop reached", And(w >= 0, w <= k)), ("its length", zi(env.max_length) == E.ghost["LEN"](w)), ("still running", E.ghost["ST"](k)) if False else ("ran up to here", Forall([I], lambda j: Implies(And(0 <= j, j < k), E.ghost["ST"](j)), patterns=lambda j: [E.ghost["ST"](j)])), ("running unless just begun", Implies(k > 0, E.ghost["ST"](k)))]
        def fr(E, f): s = f.locals.get("sim"); return [(s, "num_loops")]
        def hv(E, f, n): return f.locals[n] if n == "sim" else MISSING
        return [Loop("search", inv0, frame=fr, havoc_local=hv), Loop("sizes", lambda E, env: [("a size of at least one cell", zi(env.opt_size) >= 1)]), Loop("multiples", lambda E, env: [("at least one", And(zi(env.mult) >= 1, zi(env.opt_mult) >= 1))], match=lambda E, s, fr: isinstance(s, ast.While), havoc_local=lambda E, f, n: Opaque(n) if n in ("max_chain_factor", "chain_factor", "block_machine", "back_machine", "sim") else MISSING, bind_unbound=lambda E, f, n, k: MISSING)]
    def post(self, E, old, a, r):
        b = a.result.fields.get("best_block_size"); return [("a block size of at least one cell is chosen", False if b is None else zi(b) >= 1)]
CONTRACTS = [Finder()]; LEMMAS = []
