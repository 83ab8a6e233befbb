"""Contracts of CTL_Filter (C10): which variant runs, with what, and what is recorded."""
from .wcommon import *
M = "CTL_Filter"; T = ["CTL1", "CTL2", "CTL3", "CTL4"]; P = ["ctl_as", "ctl_as_b", "ctl_a_bs", "ctl_as_b_c"]
class Module(Wrapper):
    module = M; qualname = "get_module"; params = ["type"]; inline = True
    def args(self, E): return NS(type=E.case(*T))
    def post(self, E, old, a, r): return [("the module of that name", getattr(r, "name", None) == a.type)]
class Proto(Wrapper):
    module = M; qualname = "get_proto"; params = ["type", "tm_record"]; inline = True
    def args(self, E): return NS(type=E.case(*T), tm_record=record(E))
    def post(self, E, old, a, r): return [("the variant's own result", r is a.tm_record.fields["proto"].fields["filter"].fields["ctl"].fields[P[T.index(a.type)]])]
class Filter(Wrapper):
    module = M; qualname = "filter"; params = ["tm_record", "type", "block_size", "offset", "cutoff", "use_backsymbol"]
    def args(self, E): return NS(tm_record=record(E), type=E.case(*T), block_size=E.int("block"), offset=E.int("offset"), cutoff=E.int("cutoff"), use_backsymbol=E.bool("back"))
    def pre(self, E, a): return [("sizes", And(zi(a.block_size) >= 1, zi(a.offset) >= 0, zi(a.offset) < zi(a.block_size)))]
    def setup(self, E):
        status_stubs(E)
        def mk(t):
            def test(E, a):
                g = E.ghost; A = g["a"]; E.prove("the record's machine is tested", a.tm is g["tm"]); E.prove("by the variant asked for", A.type == t); E.prove("with a block size and offset the test accepts", And(zi(a.block_size) >= 1, zi(a.offset) >= 0, zi(a.offset) < zi(a.block_size)))
                E.prove("with the parameters asked for", And(zi(a.block_size) == zi(A.block_size), zi(a.offset) == zi(A.offset), zi(a.cutoff) == zi(A.cutoff), zb(E.truth(a.use_backsymbol)) == zb(A.use_backsymbol)))
                r = E.bool("shown"); E.assume(Implies(r, Not(g["H"]))); g["r"] = r; return (r, E.int("iters"))
            return test
        for t in T: stub(E, t, "test_CTL", ["base_tm" if False else "tm", "cutoff", "block_size", "offset", "use_backsymbol"], mk(t))
    def old(self, E, a): E.ghost["a"] = a; return NS()
    def post(self, E, old, a, r):
        v = bool(verdicts(E)); return [("true exactly with a verdict", r is v), ("a machine shown infinite is recorded", E.ghost["r"] == v)]
    def apply_call(self, E, f, argv):
        a = NS(**dict(zip(self.params, argv)))
        for l, c in self.pre(E, a): E.prove("call filter: requires " + l, c)
        E.prove("call filter: the record at hand", a.tm_record is E.ghost["rec"]); r = E.case(True, False); E.ghost["last"] = r; E.ghost["any"] = E.ghost.get("any", False) or r; return r
class Args(Wrapper):
    def mk(self, E):
        r = record(E); o = Obj(E, "Args", {"all_offsets": E.case(True, False), "type": E.case(*T), "block_size": E.int("bs"), "offset": E.int("off"), "cutoff": E.int("cut"), "no_backsymbol": E.bool("nb"), "min_block_size": E.int("min"), "max_block_size": E.case(None, E.int("max"))})
        E.assume(And(o.fields["min_block_size"] >= 1, o.fields["block_size"] >= 1)); E.ghost["rec"] = r; return r, o
    def loops(self):
        return [Loop("sizes", lambda E, env: [("not condemned so far", not E.ghost.get("any", False))], havoc_local=lambda E, fr, nm: MISSING)]
    def post(self, E, old, a, r): return [("true exactly when one of the tests succeeded", E.truth_eq(r, bool(E.ghost.get("any", False))))]
class ByBlock(Args):
    module = M; qualname = "filter_block_size"; params = ["tm_record", "block_size", "args"]
    def args(self, E): r, o = self.mk(E); return NS(tm_record=r, block_size=E.int("k"), args=o)
    def pre(self, E, a): return [("size", zi(a.block_size) >= 1), ("offset", And(zi(a.args.fields["offset"]) >= 0, zi(a.args.fields["offset"]) < zi(a.block_size)) if not a.args.fields["all_offsets"] else True)]
    def apply_call(self, E, f, argv):
        a = NS(**dict(zip(self.params, argv)))
        E.prove("call filter_block_size: requires size", zi(a.block_size) >= 1); E.prove("call filter_block_size: the record at hand", a.tm_record is E.ghost["rec"]); r = E.case(True, False); E.ghost["any"] = E.ghost.get("any", False) or r; return r
class All(Args):
    module = M; qualname = "filter_all"; params = ["tm_record", "args"]
    def args(self, E): r, o = self.mk(E); return NS(tm_record=r, args=o)
CONTRACTS = [Module(), Proto(), Filter(), ByBlock(), All()]; LEMMAS = []
