"""Contract of Reverse_Engineer_Filter.filter (C08)."""
from .wcommon import *
from .wcommon import EXTS as _X
M = "Reverse_Engineer_Filter"
class Filter(Wrapper):
    module = M; qualname = "filter"; params = ["tm_record"]
    def args(self, E): return NS(tm_record=record(E))
    def setup(self, E):
        status_stubs(E)
        def inf(E, a): E.prove("the record's machine is examined", a.tm is E.ghost["tm"]); r = E.bool("shown infinite"); E.assume(Implies(r, Not(E.ghost["H"]))); E.ghost["r"] = r; return r
        stub(E, M, "is_infinite", ["tm"], inf)
    def post(self, E, old, a, r):
        s = a.tm_record.fields["proto"].fields.get("filter"); s = s and s.fields["reverse_engineer"].fields.get("success"); v = bool(verdicts(E))
        return [("success is reported exactly with a verdict", isinstance(s, bool) and s == v), ("a machine shown infinite is recorded", E.ghost["r"] == v)]
CONTRACTS = [Filter()]; LEMMAS = []
