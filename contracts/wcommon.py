"""Shared pieces of the contracts of the functions around the deciders: messages
are objects whose fields appear on first use, the status may only be written
through Halting_Lib (whose functions are proved under C20), and every verdict
written must follow from what the decider just called guarantees.  Ghost `H`:
the machine halts."""
import z3
from pyvc.engine import *
from pyvc.contract import *
I = z3.IntSort(); B = z3.BoolSort()
def msg(E, **f): return Obj(E, "Msg", f)
def msg_attr(E, o, name):
    if name in o.fields: return o.fields[name]
    if name in ("Clear",): return lambda E: o.fields.clear()
    if name.startswith("__"): return MISSING
    if name == "CopyFrom": raise Unsupported("CopyFrom")
    o.fields[name] = msg(E); return o.fields[name]
def msg_set(E, o, name, v):
    o.fields[name] = v; return True
def qs_set(E, o, name, v):
    if name == "is_decided" and v is False: E.ghost["ev"].append(("quasi open",)); return True
    raise Unsupported("status written directly")
def hs_set(E, o, name, v): raise Unsupported("status written directly")
def hs_attr(E, o, name):
    if name in o.fields: return o.fields[name]
    raise Unsupported("status field " + name)
def mk_status(E): return Obj(E, "Msg", {"halt_status": Obj(E, "HS", {"is_decided": E.bool("decided before"), "is_halting": E.bool("halting before")}), "quasihalt_status": Obj(E, "QS", {})})
def record(E):
    """a record of the machine `tm`"""
    tm = Obj(E, "AbsTM", {}); st = mk_status(E); E.ghost.update(tm=tm, st=st, ev=[], H=E.bool("the machine halts"))
    return Obj(E, "Record", {"proto": msg(E, status=st), "machine": tm})
def rec_attr(E, o, name):
    if name == "tm": return lambda E: o.fields["machine"]
    if name == "proto": return o.fields["proto"]
    if name == "clear_proto": return lambda E: None
    raise Unsupported("record." + name)
def stub(E, module, qual, params, fn):
    class S(Contract):
        def apply_call(s, E, f, argv): return fn(E, NS(**dict(zip(params, argv))))
    S.module, S.qualname, S.params = module, qual, params; E.contracts[(module, qual)] = S()
HL = "Halting_Lib"
def status_stubs(E, halting=None, recur=None):
    def nothalt(E, a):
        E.prove("the status written is the machine's", a.tm_status is E.ghost["st"]); E.prove("recorded as never halting only when that was shown", Not(E.ghost["H"])); E.ghost["ev"].append(("inf", a.inf_reason)); decided(E, False)
    def nope(what):
        def f(E, a): raise Unsupported(what + " in a wrapper")
        return f
    stub(E, HL, "set_not_halting", ["tm_status", "inf_reason"], nothalt)
    stub(E, HL, "set_halting", ["tm_status", "halt_steps", "halt_score", "from_state", "from_symbol"], halting or nope("set_halting"))
    stub(E, HL, "set_inf_recur", ["tm_status", "states_to_ignore", "states_last_seen"], recur or nope("set_inf_recur"))
def decided(E, halting): h = E.ghost["st"].fields["halt_status"]; h.fields["is_decided"] = True; h.fields["is_halting"] = halting
def verdicts(E): return [e for e in E.ghost["ev"] if e[0] in ("inf", "halt")]
EXTS = {("Msg", "attr"): msg_attr, ("Msg", "setattr"): msg_set, ("QS", "setattr"): qs_set, ("HS", "setattr"): hs_set, ("HS", "attr"): hs_attr, ("Record", "attr"): rec_attr, ("new", "Timer"): lambda E, c, a, k: Opaque("timer"),
        ("external", "time.time"): lambda E, *a: Opaque("time")}
class Wrapper(Contract):
    exts = EXTS
