"""Status setters on real protobuf messages."""
from bounded.lib import *
import Halting_Lib as HL, io_pb2
from Exp_Int import exp_int, ExpInt
def rnd_int(rng): return rng.choice([0, 1, 2, rng.randrange(100), rng.randrange(2**40), 2**63 - 1, 2**63, 2**63 + 1, 2**64, 3**200 + rng.randrange(9), rng.randrange(2**70)])
def dirty(rng):
    s = io_pb2.BBStatus()
    if rng.random() < .5:
        s.halt_status.is_decided = rng.random() < .5; s.halt_status.is_halting = rng.random() < .5; s.halt_status.inf_reason = rng.randrange(9)
        HL.set_big_int(s.halt_status.halt_steps, rnd_int(rng)); HL.set_big_int(s.halt_status.halt_score, rnd_int(rng)); s.halt_status.from_state = rng.randrange(5)
        s.quasihalt_status.is_decided = rng.random() < .5; s.quasihalt_status.is_quasihalting = rng.random() < .5; s.quasihalt_status.quasihalt_state = rng.randrange(5)
        HL.set_big_int(s.quasihalt_status.quasihalt_steps, rnd_int(rng))
    return s
def run(ctx):
    rng, rep = ctx.rng, ctx.rep
    C = rep.check
    for i in range(20000 if not ctx.thorough else 200000):
        if not ctx.time_left() or rep.violations: break
        s = dirty(rng); before = io_pb2.BBStatus(); before.CopyFrom(s)
        k = rng.randrange(4)
        if k == 0:
            a = [rnd_int(rng), rng.choice([None, rnd_int(rng)]), rng.choice([None, 0, rng.randrange(7)]), rng.choice([None, 0, rng.randrange(7)])]
            HL.set_halting(s, *a); h = s.halt_status; d = dict(args=[str(x) for x in a])
            C(h.is_decided and h.is_halting, "set_halting: not recorded as a decided halt", **d)
            C(HL.get_big_int(h.halt_steps) == a[0], "set_halting: step count differs", **d)
            C(HL.get_big_int(h.halt_score) == (a[1] if a[1] is not None else HL.get_big_int(before.halt_status.halt_score)), "set_halting: score differs", **d)
            C(h.from_state == (a[2] if a[2] is not None else before.halt_status.from_state), "set_halting: halting state differs", **d)
            C(h.from_symbol == (a[3] if a[3] is not None else before.halt_status.from_symbol), "set_halting: halting symbol differs", **d)
            C(s.quasihalt_status.is_decided and not s.quasihalt_status.is_quasihalting, "set_halting: quasihalt status", **d)
            rep.case(("halt", a))
        elif k == 1:
            r = rng.randrange(9); HL.set_not_halting(s, r)
            C(s.halt_status.is_decided and not s.halt_status.is_halting and s.halt_status.inf_reason == r, "set_not_halting: status differs", reason=r)
            C(s.quasihalt_status == before.quasihalt_status, "set_not_halting changed the quasihalt status", reason=r)
            rep.case(("nothalt", r, str(before)))
        elif k == 2:
            HL.set_not_quasihalting(s)
            C(s.quasihalt_status.is_decided and not s.quasihalt_status.is_quasihalting, "set_not_quasihalting: status differs")
            C(s.halt_status == before.halt_status, "set_not_quasihalting changed the halt status")
        else:
            keys = rng.sample(range(8), rng.randrange(0, 7)); ls = {q: rng.choice([0, 1, 2, rng.randrange(50), rnd_int(rng)]) for q in keys}
            ig = rng.sample(range(8), rng.randrange(0, 8))
            if rng.random() < .4: ig = [q for q in keys if rng.random() < .8]
            igc = rng.choice([list, set, frozenset, tuple])(ig)
            a, b = (None, ls) if rng.random() < .05 else ((igc, None) if rng.random() < .05 else (igc, ls))
            HL.set_inf_recur(s, a, b); q = s.quasihalt_status; d = dict(ignore=sorted(ig), last_seen={str(x): str(y) for x, y in ls.items()})
            if a is None or b is None: C(not q.is_decided, "set_inf_recur: decided without information", **d)
            else:
                rest = {x: y for x, y in ls.items() if x not in ig}
                C(q.is_decided, "set_inf_recur: not decided", **d)
                C(q.is_quasihalting == bool(rest), "set_inf_recur: quasihalting flag wrong", **d)
                if rest and q.is_quasihalting:
                    m = max(rest.values())
                    C(HL.get_big_int(q.quasihalt_steps) == m + 1, "set_inf_recur: time is not one more than the latest last visit", got=str(HL.get_big_int(q.quasihalt_steps)), **d)
                    C(rest.get(q.quasihalt_state) == m, "set_inf_recur: wrong quasihalt state", got=q.quasihalt_state, **d)
            C(s.halt_status == before.halt_status, "set_inf_recur changed the halt status", **d)
            rep.case(("recur", sorted(ls.items()), sorted(ig)), nontrivial=len(ls) > 1)
