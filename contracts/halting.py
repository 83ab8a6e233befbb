"""Contracts of Code/Halting_Lib.py: big integer fields and status setters.

Protobuf messages are modelled by their documented interface: scalar fields with
range checks (ValueError outside the declared type) and one oneof per BigInt."""
import z3
from pyvc.engine import *
from pyvc.contract import *
M = "Halting_Lib"; I = z3.IntSort()
RANGE = {"int": (-2**63, 2**63 - 1), "uint_old": (0, 2**64 - 1), "from_state": (0, 2**64 - 1), "from_symbol": (0, 2**64 - 1), "quasihalt_state": (0, 2**64 - 1)}
BOOLS = {"is_decided", "is_halting", "is_quasihalting"}
WHICH = {"int", "hex_str", "exp_int_pickle", "uint_old", "exp_int", "exp_int_str"}

def ranged(E, name, v):
    if v is None: raise PyRaise("TypeError", "None stored in %s" % name)
    lo, hi = RANGE[name]
    if not E.branch(zb(And(zi(v) >= lo, zi(v) <= hi))): raise PyRaise("ValueError", "%s out of range" % name)

def big(E, arbitrary=True):
    o = Obj(E, "PBBigInt", {"which": None, "payload": None})
    if arbitrary:
        k = E.choose(3)
        if k == 1: o.fields.update(which="int", payload=E.int("oldint"))
        elif k == 2: o.fields.update(which="exp_int_pickle", payload=Opaque("old"))
    return o
def big_set(E, o, name, v):
    if name not in WHICH: raise PyRaise("AttributeError", name)
    if name in RANGE: ranged(E, name, v)
    if name == "hex_str" and not (isinstance(v, Obj) and v.cls == "Str16"): raise Unsupported("hex_str content")
    E.setfield(o, "which", name); E.setfield(o, "payload", v); return True
def big_attr(E, o, name):
    if name == "Clear":
        def clear(E): E.setfield(o, "which", None); E.setfield(o, "payload", None)
        return clear
    if name == "WhichOneof": return lambda E, n: o.fields["which"]
    if name in WHICH: return o.fields["payload"] if o.fields["which"] == name else (0 if name in RANGE else Opaque("default"))
    if name == "HasField": return lambda E, n: o.fields["which"] == n
    return MISSING
def msg(E, kind, **f): return Obj(E, kind, f)
def msg_set(E, o, name, v):
    if name in RANGE: ranged(E, name, v)
    elif name in BOOLS:
        if not (isinstance(v, bool) or is_zbool(v)): raise Unsupported("bool field")
    elif name == "inf_reason": pass
    elif name not in o.fields: raise PyRaise("AttributeError", name)
    elif isinstance(o.fields[name], Obj): raise PyRaise("AttributeError", "assignment to message field")
    E.setfield(o, name, v); return True
def status(E):
    """A BBStatus with arbitrary earlier contents."""
    h = msg(E, "PBMsg", is_decided=E.bool("d"), is_halting=E.bool("h"), halt_steps=big(E, False), halt_score=big(E, False), from_state=E.int("fs"), from_symbol=E.int("fy"), inf_reason=E.int("ir"))
    q = msg(E, "PBMsg", is_decided=E.bool("qd"), is_quasihalting=E.bool("q"), quasihalt_steps=big(E, False), quasihalt_state=E.int("qs"))
    for b in (h.fields["halt_steps"], h.fields["halt_score"], q.fields["quasihalt_steps"]): b.fields.update(which="int", payload=E.int("old"))
    return msg(E, "PBMsg", halt_status=h, quasihalt_status=q)
def b_hex(E, args, kw):
    v = args[0]
    if is_zint(v): return Obj(E, "Str16", {"value": v})
    return MISSING
def b_int(E, args, kw):
    if args and isinstance(args[0], Obj) and args[0].cls == "Str16":
        base = args[1] if len(args) > 1 else kw.get("base", 10)
        if base == 16 or base == 0: return args[0].fields["value"]
        raise PyRaise("ValueError", "invalid literal")
    return MISSING
EXTS = {("PBBigInt", "setattr"): big_set, ("PBBigInt", "attr"): big_attr, ("PBMsg", "setattr"): msg_set, ("builtin", "hex"): b_hex, ("builtin", "int"): b_int,
        ("external", "pickle.dumps"): lambda E, v, *a, **k: Obj(E, "Pickle", {"value": v}),
        ("external", "pickle.loads"): lambda E, p: p.fields["value"] if isinstance(p, Obj) and p.cls == "Pickle" else (_ for _ in ()).throw(Unsupported("pickle.loads"))}

def denote(o):
    w = o.fields["which"]; p = o.fields["payload"]
    if w == "int": return p
    if w == "hex_str": return p.fields["value"]
    if w == "exp_int_pickle" and isinstance(p, Obj): return p.fields["value"]
    return None

class SetBig(Contract):
    """set_big_int; get_big_int on the stored field gives back the value."""
    module = M; qualname = "set_big_int"; params = ["field", "value"]
    def args(self, E):
        # ExpInt is a subclass of nothing numeric: a value is a plain int of any size, or an ExpInt object
        v = E.case(E.int("value"), E.new("Exp_Int", "ExpInt"))
        return NS(field=big(E), value=v)
    def modifies(self, E, a): return [(a.field, "which"), (a.field, "payload")]
    def post(self, E, old, a, r):
        got = E.call_body(E.P.func(M, "get_big_int"), [a.field], {})
        return [("the stored value reads back unchanged", (got is a.value) if isinstance(a.value, Obj) else (False if got is None or isinstance(got, Obj) else E.truth_eq(got, a.value)))]
    def apply_call(self, E, f, argv):
        fl, v = argv
        if not (isinstance(fl, Obj) and fl.cls == "PBBigInt"): raise Unsupported("set_big_int target")
        if v is None: raise PyRaise("TypeError", "Unexpected type")
        E.setfield(fl, "which", "int"); E.setfield(fl, "payload", v)

class GetBig(Contract):
    module = M; qualname = "get_big_int"; params = ["field"]
    def args(self, E):
        k = E.choose(4); o = big(E, False)
        if k == 0: o.fields.update(which="int", payload=E.int("i"))
        elif k == 1: o.fields.update(which="uint_old", payload=E.int("u"))
        elif k == 2: o.fields.update(which="hex_str", payload=Obj(E, "Str16", {"value": E.int("h")}))
        return NS(field=o)
    def post(self, E, old, a, r):
        w, p = a.field.fields["which"], a.field.fields["payload"]
        if w is None: return [("an unset field is None", r is None)]
        want = p.fields["value"] if w == "hex_str" else p
        return [("the value stored in the field", False if r is None else E.truth_eq(r, want))]

OTHER_H = ("halt_steps", "halt_score", "from_state", "from_symbol", "inf_reason", "is_decided", "is_halting")
def snap(o):
    out = {}
    for sub in ("halt_status", "quasihalt_status"):
        for k, v in o.fields[sub].fields.items(): out[sub, k] = denote(v) if isinstance(v, Obj) else v
    return out
def kept(E, old, o, names):
    now = snap(o)
    return [("%s.%s is left alone" % n, E.truth_eq(now[n], old[n])) for n in names]

class Setter(Contract):
    module = M
    def old(self, E, a): return NS(s=snap(a.tm_status))
    def modifies(self, E, a):
        s = a.tm_status; out = []
        for sub in ("halt_status", "quasihalt_status"):
            m = s.fields[sub]
            out += [(m, f) for f in m.fields]
            out += [(v, x) for v in m.fields.values() if isinstance(v, Obj) for x in ("which", "payload")]
        return out

class SetHalting(Setter):
    qualname = "set_halting"; params = ["tm_status", "halt_steps", "halt_score", "from_state", "from_symbol"]
    def args(self, E):
        opt = lambda n: E.case(None, E.int(n))
        return NS(tm_status=status(E), halt_steps=E.int("steps"), halt_score=opt("score"), from_state=opt("fst"), from_symbol=opt("fsy"))
    def pre(self, E, a): return [("sizes", And(*[And(zi(x) >= 0, zi(x) < 2**63) for x in (a.from_state, a.from_symbol) if x is not None]))]
    def post(self, E, old, a, r):
        n = snap(a.tm_status); H = "halt_status"; eq = E.truth_eq
        out = [("decided", eq(n[H, "is_decided"], True)), ("halting", eq(n[H, "is_halting"], True)), ("step count", eq(n[H, "halt_steps"], a.halt_steps)),
               ("not quasihalting, decided", And(eq(n["quasihalt_status", "is_decided"], True), eq(n["quasihalt_status", "is_quasihalting"], False)))]
        for f, x in (("halt_score", a.halt_score), ("from_state", a.from_state), ("from_symbol", a.from_symbol)):
            out.append((f, eq(n[H, f], x if x is not None else old.s[H, f])))
        return out + kept(E, old.s, a.tm_status, [(H, "inf_reason")])

class SetNotHalting(Setter):
    qualname = "set_not_halting"; params = ["tm_status", "inf_reason"]
    def args(self, E): return NS(tm_status=status(E), inf_reason=E.int("reason"))
    def post(self, E, old, a, r):
        n = snap(a.tm_status); H = "halt_status"; eq = E.truth_eq
        return [("decided", eq(n[H, "is_decided"], True)), ("not halting", eq(n[H, "is_halting"], False)), ("reason", eq(n[H, "inf_reason"], a.inf_reason))] + \
            kept(E, old.s, a.tm_status, [(H, x) for x in ("halt_steps", "halt_score", "from_state", "from_symbol")] + [("quasihalt_status", x) for x in ("is_decided", "is_quasihalting", "quasihalt_steps", "quasihalt_state")])

class SetNotQuasi(Setter):
    qualname = "set_not_quasihalting"; params = ["tm_status"]
    def args(self, E): return NS(tm_status=status(E))
    def post(self, E, old, a, r):
        n = snap(a.tm_status); eq = E.truth_eq
        return [("decided", eq(n["quasihalt_status", "is_decided"], True)), ("not quasihalting", eq(n["quasihalt_status", "is_quasihalting"], False))] + \
            kept(E, old.s, a.tm_status, [("halt_status", x) for x in OTHER_H])

class SetInfRecur(Setter):
    qualname = "set_inf_recur"; params = ["tm_status", "states_to_ignore", "states_last_seen"]
    def args(self, E):
        s = status(E); k = E.choose(3)
        m = E.sym_map("ls"); ig = E.func("ignored", I, z3.BoolSort())
        E.ghost.update(m=m, ig=ig)
        ig_set = SymSet(E, lambda x: ig(zi(x)))
        n, key = m.order
        E.assume(Forall([I], lambda i: Implies(And(i >= 0, i < n), And(key(i) >= 0, key(i) < 2**63, zi(m.get(key(i))) >= 0)), patterns=lambda i: [key(i)]))
        return NS(tm_status=s, states_to_ignore=None if k == 1 else ig_set, states_last_seen=None if k == 2 else m)
    def loops(self):
        def hv(E, fr, n): return E.case(None, E.int(n)) if fr.locals[n] is None else MISSING
        def inv(E, env):
            m, ig = E.ghost["m"], E.ghost["ig"]; n, key = m.order; k = zi(env.k)
            qs, ql = env.q_state, env.q_last_seen
            seen = lambda i: And(i >= 0, i < k)
            if qs is None:
                return [("no state qualified so far", Forall([I], lambda i: Implies(seen(i), ig(key(i))), patterns=lambda i: [key(i)])), ("counter untouched", zi(ql) == -1)]
            q = zi(qs)
            return [("best so far is a visited, not recurring state", And(zb(m.has(q)), m.idx(q) < k, Not(ig(q)))), ("its last visit", zi(ql) == zi(m.get(q))),
                    ("no later one so far", Forall([I], lambda i: Implies(And(seen(i), Not(ig(key(i)))), zi(m.get(key(i))) <= zi(ql)), patterns=lambda i: [key(i)]))]
        return [Loop("states", inv, havoc_local=hv)]
    def post(self, E, old, a, r):
        n = snap(a.tm_status); Q = "quasihalt_status"; eq = E.truth_eq
        out = kept(E, old.s, a.tm_status, [("halt_status", x) for x in OTHER_H])
        if a.states_last_seen is None or a.states_to_ignore is None:
            return out + [("undecided when information is missing", eq(n[Q, "is_decided"], False))] + kept(E, old.s, a.tm_status, [(Q, x) for x in ("quasihalt_steps", "quasihalt_state", "is_quasihalting")])
        m, ig = E.ghost["m"], E.ghost["ig"]; N, key = m.order
        qual = lambda i: And(i >= 0, i < N, Not(ig(key(i))))
        out.append(("decided", eq(n[Q, "is_decided"], True)))
        isq = n[Q, "is_quasihalting"]
        isq = isq if isinstance(isq, bool) else E.branch(isq)
        if not isq: return out + [("not quasihalting: every visited state recurs", Forall([I], lambda i: Not(qual(i))))]
        st, steps = zi(n[Q, "quasihalt_state"]), zi(n[Q, "quasihalt_steps"])
        return out + [("the state was visited and is not recurring", And(zb(m.has(st)), Not(ig(st)))), ("time is one more than its last visit", steps == zi(m.get(st)) + 1),
                      ("no other such state is visited later", Forall([I], lambda i: Implies(qual(i), zi(m.get(key(i))) + 1 <= steps)))]

CONTRACTS = [SetBig(), GetBig(), SetHalting(), SetNotHalting(), SetNotQuasi(), SetInfRecur()]
CONTRACTS[4].inline = True
