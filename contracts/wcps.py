"""Contracts of CPS_Filter (C11): sizes handed to the closed-graph test, and the machine and status it is given."""
from .wcommon import *
M = "CPS_Filter"; PR = ["tm", "block_size", "window_size", "max_steps", "max_iters", "max_configs", "max_edges", "cg_result", "bb_status"]
class One(Wrapper):
    module = M; qualname = "filter"; params = ["tm_record"] + PR[1:7]
    def args(self, E): r = record(E); E.ghost["rec"] = r; return NS(tm_record=r, **{p: E.int(p) for p in PR[1:7]})
    def pre(self, E, a): return [("a window of at least two blocks", And(zi(a.block_size) >= 1, zi(a.window_size) >= 2 * zi(a.block_size)))]
    def setup(self, E):
        status_stubs(E)
        def f(E, a):
            g = E.ghost; A = g["a"]; E.prove("the record's machine and status", And(a.tm is g["tm"], a.bb_status is g["st"])); E.prove("its own result", a.cg_result is g["rec"].fields["proto"].fields["filter"].fields["closed_graph"].fields["result"]); E.prove("a window of at least two blocks", And(zi(a.block_size) >= 1, zi(a.window_size) >= 2 * zi(a.block_size)))
            E.prove("the sizes and limits asked for", And(*[zi(a[p] if isinstance(a, dict) else getattr(a, p)) == zi(getattr(A, p)) for p in PR[1:7]])); g["n"] = g.get("n", 0) + 1
        stub(E, "CPS", "filter", PR, f)
    def old(self, E, a): E.ghost["a"] = a; return NS()
    def post(self, E, old, a, r): return [("tested once", E.ghost.get("n") == 1)]
    def apply_call(self, E, f, argv):
        a = NS(**dict(zip(self.params, argv)))
        for l, c in self.pre(E, a): E.prove("call filter: requires " + l, c)
        E.prove("call filter: the record at hand", a.tm_record is E.ghost["rec"]); E.ghost["res"].fields["success"] = E.case(True, False)
class All(Wrapper):
    module = M; qualname = "filter_all"; params = ["tm_record", "args"]
    def args(self, E):
        r = record(E); E.ghost["rec"] = r; res = msg(E, success=False); E.ghost["res"] = res; r.fields["proto"].fields["filter"] = msg(E, closed_graph=msg(E, result=res, parameters=msg(E)))
        o = Obj(E, "Args", {"min_block_size": E.int("min"), "max_block_size": E.case(None, E.int("max")), "max_window_size": E.case(None, E.int("maxw")), **{p: E.int(p) for p in PR[3:7]}}); E.assume(o.fields["min_block_size"] >= 1)
        return NS(tm_record=r, args=o)
    def pre(self, E, a): return [("one of the two scans", a.args.fields["max_block_size"] is not None or a.args.fields["max_window_size"] is not None and a.args.fields["max_window_size"] > 0)]
    def loops(self):
        inv = lambda E, env: [("no success so far", E.ghost["res"].fields["success"] is False)]
        return [Loop(n, inv) for n in ("blocks", "windows", "blocks2")]
CONTRACTS = [One(), All()]; LEMMAS = []
