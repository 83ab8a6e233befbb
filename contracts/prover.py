"""Contracts of the proof system's use (C06): a simulator step with the prover
on, the logging of configurations, and the store of proven rules.

VALID(rule, key) says that a rule is true for every configuration with that
stripped form at or above its minimum; prove_rule is assumed to return only
such rules (bounded), apply_rule is verified for C05."""
import z3
from pyvc.engine import *
from pyvc.contract import *
from . import simul as SM
from .simul import *
PS = "Macro.Proof_System"
NEVER = z3.Function("never_stops_from", I, B)
def pv_attr(E, o, name):
    if name != "log_and_apply": return MISSING
    def f(E, tape, state, step_num, loop_num):
        s = E.ghost["sim"]; k = s.fields["__K__"]; E.prove("consults the prover about the current configuration", And(tape is s.fields["tape"], zi(state) == xS(k), Or(s.fields["compute_steps"] is not True, zi(step_num) == xB(k))))
        c = E.case("Nothing_To_Do", "Apply_Rule", "Inf_Repeat")
        if c == "Nothing_To_Do": return E.new(PS, "ProverResult", condition=c, new_tape=None, num_base_steps=None, states_last_seen=None)
        J = E.int("J"); E.assume(J >= 1); E.ghost["J"] = J; at = E.func("rule_last", I, I); sl = E.case(None, Obj(E, "TLS", {"at": lambda q: at(q)}))
        if c == "Inf_Repeat": E.ghost["J"] = None; E.ghost["forever"] = True; return E.new(PS, "ProverResult", condition=c, new_tape=None, num_base_steps=None, states_last_seen=sl)
        fs = [E.func("NL", I, SYM), E.func("NR", I, SYM)]; t = abs_tape(E, v=[lambda i: fs[0](i), lambda i: fs[1](i)]); K = k + J
        E.assume(And(xS(K) == xS(k), xD(K) == xD(k), zi(t.fields["dir"]) == xD(K)))
        for a in (0, 1): E.assume(Forall([I], lambda i, a=a: Implies(i >= 0, fs[a](i) == xH(K, a, i)), patterns=lambda i, a=a: [fs[a](i)]))
        if sl is not None: E.assume(Forall([I], lambda q: And(at(q) >= -1, xV(K, q) == Ite(at(q) >= 0, xB(k) + at(q), xV(k, q))), patterns=lambda q: [xV(K, q)])); E.assume(z3.Exists([z3.Int("q!e")], at(z3.Int("q!e")) >= 0))
        n = E.case(xB(K) - xB(k), None); E.ghost["uncounted"] = n is None
        return E.new(PS, "ProverResult", condition=c, new_tape=t, num_base_steps=n, states_last_seen=sl)
    return f
class StepP(SM.Step):
    """with the prover on: still on the run, or never stopping"""
    def args(self, E): o = mk_sim(E); o.fields["prover"] = Obj(E, "Prover", {}); o.fields["is_base_simulator"] = E.case(True, False); o.fields["steps_from_rule"] = E.int("sr") if o.fields["compute_steps"] else None; return NS(self=o)
    def modifies(self, E, a): return frame(E, a.self) + [(a.self, x) for x in ("tape", "num_rule_moves", "steps_from_rule", "states_last_seen", "compute_steps")]
    def loops(self):
        Ls = SM.Step.loops(self)
        return list(Ls) + [Loop("visits4", Ls[0].d["inv"], pre=Ls[0].d["pre"], match=Ls[0].d["match"], frame=Ls[0].d["frame"], havoc_local=Ls[0].d["havoc_local"])]
    def post(self, E, old, a, r):
        F = a.self.fields
        if E.ghost.get("forever"): return [("stops as infinite only if the prover says so", F["op_state"] == "Inf_Repeat")]
        J = E.ghost.get("J")
        if J is None: return SM.Step.post(self, E, old, a, r)
        comp = old.F["compute_steps"]
        if comp and E.ghost["uncounted"] and F["compute_steps"] is not False: return [("stops counting steps after a rule without a step count", False)]
        return [("still running", F["op_state"] == "Running")] + on_run(E, a.self, old.K + J)
# ---- the prover's log and rule store --------------------------------------------------
VALID = z3.Function("rule_holds_for", I, I, B)
def rd_contains(E, o, k): return o.fields["has"](k.fields["id"])
def rd_get(E, o, k):
    i = k.fields["id"]
    if not E.branch(zb(o.fields["has"](i))): raise PyRaise("KeyError")
    E.assume(VALID(o.fields["get"](i), i)); return mk_rule(E, o.fields["get"](i))
def rd_set(E, o, k, v):
    i = k.fields["id"]; E.prove("a rule is stored only under a configuration for which it holds", VALID(v.fields["__id__"], i)); E.note_write("field", o, "has"); h, g = o.fields["has"], o.fields["get"]; o.fields["has"] = lambda j: Or(j == i, h(j)); o.fields["get"] = lambda j: Ite(j == i, v.fields["__id__"], g(j)); return True
def mk_rule(E, i):
    r = E.new(PS, E.case("Diff_Rule", "General_Rule"), num_uses=E.int("uses"), is_meta_rule=E.bool("meta")); r.fields["__id__"] = i; E.ghost.setdefault("rules", []).append(r); return r
def pc_get(E, o, k):
    c = E.ghost.setdefault("pc", {})
    i = k.fields["id"]
    if "x" not in c: c["x"] = E.new(PS, "Past_Config", times_seen=E.int("ts"), last_loop_num=E.int("ll"), last_delta=E.int("ldl")); E.ghost["pcid"] = i
    E.prove("looks up the logged configuration", E.ghost["pcid"] == i); return c["x"]
def mk_ps(E):
    h, g = E.func("has", I, B), E.func("get", I, I); rd = Obj(E, "RD", {"has": lambda i: h(i), "get": lambda i: g(i)}); E.ghost["rd"] = rd
    return E.new(PS, "Proof_System", options=Obj(E, "Options", {"limited_rules": False, "compute_steps": E.bool("comp"), "max_prover_configs": E.int("mx")}), frozen=E.case(False, True), recursive=E.bool("rec"), verbose=False, past_configs=E.case(Obj(E, "PC", {}), None), rules=rd, num_rules=E.int("n1"), num_failed_proofs=E.int("n2"), num_meta_diff_rules=E.int("n3"), machine=Opaque("m"), verbose_prefix="")
def conf(E): c = (E.int("state"), E.new("Macro.Tape", "Chain_Tape", dir=E.int("dir"), tape=Opaque("halves")), E.int("step"), E.int("loop")); E.ghost["conf"] = c; E.ghost["scid"] = E.int("stripped"); return c
def same_conf(E, c): return all(x is y or z3.is_expr(x) and z3.is_expr(y) and x.eq(y) for x, y in zip(c, E.ghost["conf"]))
class Strip(Contract):
    module = PS; qualname = "strip_config"; params = ["state", "dir", "tape"]; assumed = True; why = "verified: rulegen (used only as a key)"
    def apply_call(self, E, f, argv):
        s, d, t = argv; c = E.ghost["conf"]; E.prove("strips the configuration itself", And(zi(s) == zi(c[0]), zi(d) == zi(c[1].fields["dir"]), t is c[1].fields["tape"])); return Obj(E, "SC", {"id": E.ghost["scid"]})
class ProveRule(Contract):
    module = PS; qualname = "Proof_System.prove_rule"; params = ["self", "stripped_config", "full_config", "delta_loop"]; assumed = True; why = "verified: proverule (the generalised replay; limited rules bounded)"
    def apply_call(self, E, f, argv):
        o, sc, c, d = argv; E.prove("tries to prove a rule for the logged configuration", And(same_conf(E, c), sc.fields["id"] == E.ghost["scid"]))
        if E.choose(2) == 0: return E.case(None, False)
        i = E.int("rule"); E.assume(VALID(i, sc.fields["id"])); return mk_rule(E, i)
class ApplyRule(Contract):
    module = PS; qualname = "Proof_System.apply_rule"; params = ["self", "rule", "start_config"]; assumed = True; why = "verified for C05"
    def apply_call(self, E, f, argv):
        o, r, c = argv; E.prove("applies only a rule that holds for this configuration", And(same_conf(E, c), VALID(r.fields["__id__"], E.ghost["scid"])))
        if E.choose(2) == 0: return (False, E.case(None, "Unproven parity"))
        res = E.new(PS, "ProverResult", condition=E.case("Apply_Rule", "Inf_Repeat"), new_tape=Opaque("nt"), num_base_steps=E.int("nb"), states_last_seen=E.case(None, Obj(E, "SL", {}))); E.ghost["result"] = res; return (True, (res, E.bool("large")))
class LogConfig(Contract):
    module = PS; qualname = "Past_Config.log_config"; params = ["self", "step_num", "loop_num"]; assumed = True; why = "only decides when to attempt a proof"
    def apply_call(self, E, f, argv): return E.bool("try")
class LogApply(Contract):
    """nothing, or the result of applying a rule that holds for this very configuration"""
    module = PS; qualname = "Proof_System.log_and_apply"; params = ["self", "tape", "state", "step_num", "loop_num"]
    def args(self, E): o = mk_ps(E); c = conf(E); return NS(self=o, tape=c[1], state=c[0], step_num=c[2], loop_num=c[3])
    def modifies(self, E, a): return [(a.self, x) for x in ("num_failed_proofs", "num_rules", "num_meta_diff_rules")] + [(E.ghost["rd"], "has")] + [(r, "num_uses") for r in E.ghost.get("rules", [])] + [(x, None) for x in E.ghost.get("pc", {}).values()]
    def ok(self, E, r, none=False):
        if none and r is None: return [("nothing known", True)]
        if not isinstance(r, Obj): return [("a prover result", False)]
        return [("nothing to do, or the rule's result for this configuration", r.fields["condition"] == "Nothing_To_Do" or r is E.ghost.get("result"))]
    def post(self, E, old, a, r): return self.ok(E, r)
class TryApply(LogApply):
    qualname = "Proof_System.try_apply_a_rule"; params = ["self", "stripped_config", "full_config"]
    def args(self, E): o = mk_ps(E); c = conf(E); return NS(self=o, stripped_config=Obj(E, "SC", {"id": E.ghost["scid"]}), full_config=c)
    def post(self, E, old, a, r): return self.ok(E, r, True)
    def apply_call(self, E, f, argv): return E.call_body(f, argv, {})
class AddRule(LogApply):
    qualname = "Proof_System.add_rule"; params = ["self", "rule", "stripped_config"]
    def args(self, E):
        o = mk_ps(E); conf(E); i = E.int("rule"); E.assume(VALID(i, E.ghost["scid"])); o.fields["past_configs"] = Obj(E, "PC", {}); return NS(self=o, rule=mk_rule(E, i), stripped_config=Obj(E, "SC", {"id": E.ghost["scid"]}))
    def post(self, E, old, a, r): d = E.ghost["rd"].fields; s = E.ghost["scid"]; return [("the rule is stored under its configuration", And(d["has"](s), d["get"](s) == a.rule.fields["__id__"]))]
    def apply_call(self, E, f, argv): return E.call_body(f, argv, {})
def pc_attr(E, o, name): return (lambda E: None) if name == "clear" else MISSING
EXTS = dict(SM.EXTS)
EXTS.update({("Prover", "attr"): pv_attr, ("Prover", "truth"): lambda E, o: True, ("TLS", "attr"): lambda E, o, n: (lambda E: PyList(E, [E.int("last")])) if n == "values" else tls_attr(E, o, n), ("TLS", "truth"): lambda E, o: True, ("RD", "contains"): rd_contains, ("RD", "getitem"): rd_get, ("RD", "setitem"): rd_set, ("PC", "getitem"): pc_get, ("PC", "setitem"): lambda E, o, k, v: True, ("PC", "attr"): pc_attr, ("PC", "len"): lambda E, o: E.int("logged"), ("SL", "truth"): lambda E, o: True})
CONTRACTS = [StepP(), LogApply(), TryApply(), AddRule(), Strip(), ProveRule(), ApplyRule(), LogConfig(), TInit(), TChain(), TSingle(), TTop()]
LEMMAS = ["ChainLemma", "ForeverLemma"]
