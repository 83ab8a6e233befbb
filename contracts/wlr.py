"""Contract of Lin_Recur_Detect.filter (C07): detection, then the earliest start when asked for."""
from .wcommon import *
M = "Lin_Recur_Detect"
class Filter(Wrapper):
    module = M; qualname = "filter"; params = ["tm", "lr_info", "bb_status"]
    def args(self, E):
        rec = record(E); mx = E.int("max_steps"); E.ghost.update(mx=mx, mn=E.bool("find_min")); E.ghost["res"] = msg(E, success=False, start_step=0, period=0, offset=0)
        return NS(tm=E.ghost["tm"], lr_info=msg(E, parameters=msg(E, max_steps=mx, find_min_start_step=E.ghost["mn"]), result=E.ghost["res"]), bb_status=E.ghost["st"])
    def setup(self, E):
        status_stubs(E)
        def detect(E, a):
            g = E.ghost; E.prove("this machine, budget, result and status", And(a.tm is g["tm"], zi(a.max_steps) == g["mx"], a.result is g["res"], a.bb_status is g["st"])); g["n"] = g.get("n", 0) + 1
            ok = E.case(True, False); F = a.result.fields; F["success"] = ok; g["ok"] = ok
            if ok: F["start_step"], F["period"], F["offset"] = E.int("start"), E.int("period"), E.int("offset"); g["found"] = dict(F)
        def search(E, a):
            g = E.ghost; E.prove("the recurrence just found", And(g.get("ok") is True, a.tm is g["tm"], zi(a.init_step) == g["found"]["start_step"], zi(a.period) == g["found"]["period"]) if g.get("ok") else False); g["s"] = E.int("earliest"); return g["s"]
        stub(E, M, "lin_detect_not_min", ["tm", "max_steps", "result", "bb_status"], detect); stub(E, M, "period_search", ["tm", "init_step", "period"], search)
    def post(self, E, old, a, r):
        g = E.ghost; F = g["res"].fields; out = [("examined once", g.get("n") == 1), ("the verdict is the detection's", F["success"] is g.get("ok"))]
        if not g.get("ok"): return out + [("no recurrence is invented", "s" not in g)]
        f = g["found"]; return out + [("period and offset are the ones found", And(zi(F["period"]) == f["period"], zi(F["offset"]) == f["offset"])), ("the earliest start when asked for, else the one found", zi(F["start_step"]) == Ite(g["mn"], g["s"], f["start_step"]) if "s" in g else And(Not(g["mn"]), zi(F["start_step"]) == f["start_step"]))]
CONTRACTS = [Filter()]; LEMMAS = []
