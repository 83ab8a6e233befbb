"""Contracts of test_CTL in CTL1..CTL4 (C10): what is handed to CTL describes the configuration the run-in reached.

The run-in's tape, one side: blocks 0 (the endless blank) .. L-1 (next to the
head), each of NUM >= 1 cells.  ST(b) is the distance from the head at which
block b starts, BI(i) the block cell i lies in; START(i) = SY(BI(i)) are the
side's cells, n0 of them before the endless blank.  CTL's contract asks for
exactly the conditions proved at the call (its start assumptions in ctl.py)."""
import math, z3
from pyvc.engine import *
from pyvc.contract import *
from .ctl import BL, I, B
from .wcommon import stub
TMM = "Macro.Turing_Machine"; SIM = "Macro.Simulator"
class Side:
    def __init__(self, E, s):
        self.L = E.int("blocks%d" % s); self.n0 = E.int("cells%d" % s); SY = E.func("sym%d" % s, I, I); NUM = E.func("num%d" % s, I, I); ST = E.func("at%d" % s, I, I); BI = E.func("in%d" % s, I, I); self.SY, self.NUM, self.ST, self.BI = SY, NUM, ST, BI; L, n0 = self.L, self.n0
        E.assume(And(L >= 1, n0 >= 0, SY(z3.IntVal(0)) == BL, ST(z3.IntVal(0)) == n0, ST(L - 1) == 0))
        def blk(b): return Implies(And(1 <= b, b < L), And(NUM(b) >= 1, ST(b - 1) == ST(b) + NUM(b)))
        E.assume(Forall([I], blk, patterns=lambda b: [NUM(b)]))
        for b in (z3.IntVal(1), z3.IntVal(2), z3.IntVal(3), L - 1, L - 2, L - 3): E.assume(blk(b))
        E.assume(Forall([I, I], lambda a, b: Implies(And(0 <= a, a < b, b < L), ST(a) >= ST(b) + (b - a)), patterns=lambda a, b: [z3.MultiPattern(ST(a), ST(b))]))          # the sum of NUM over a+1..b
    def where(self, i):
        """cell i >= 0 lies in block BI(i)"""
        b = self.BI(i); return And(b >= 0, b < self.L, self.ST(b) <= i, Implies(b >= 1, And(i < self.ST(b - 1), self.NUM(b) >= 1, self.ST(b - 1) == self.ST(b) + self.NUM(b))))
    def cell(self, i): return self.SY(self.BI(i))
    def block(self, E, i): return E.new("Macro.Tape", "Repeated_Symbol", symbol=self.SY(zi(i)), num=Obj(E, "Cnt", {"i": zi(i), "n": self.NUM(zi(i)), "f": self.facts(zi(i))}), id=None)
    def facts(self, b): return Implies(And(1 <= b, b < self.L), And(self.NUM(b) >= 1, self.ST(b - 1) == self.ST(b) + self.NUM(b)))
    # where cell i may be found in a listing of (part of) the blocks
    def spots(self, i, n): b = self.BI(i); return [b - c for c in (0, 1, 2)] + [self.L - 1 - b - c for c in (0, 1)] + [n - 1 - b, n - b, z3.IntVal(0), n - 1]
def cnt_less(E, a, b):
    for x in (a, b):
        if isinstance(x, Obj) and x.cls == "Cnt": E.assume(x.fields["f"])
    if isinstance(a, Obj) and a.cls == "Cnt" and (isinstance(b, int) or is_zint(b)): return And(a.fields["i"] != 0, a.fields["n"] < zi(b))
    if isinstance(b, Obj) and b.cls == "Cnt" and (isinstance(a, int) or is_zint(a)): return Or(b.fields["i"] == 0, zi(a) < b.fields["n"])
    if isinstance(b, float) and math.isinf(b): return a.fields["i"] != 0
    if isinstance(a, float) and math.isinf(a): return False
    raise Unsupported("comparison of block lengths")
def cnt_eq(E, a, b):
    if not (isinstance(a, Obj) and a.cls == "Cnt"): a, b = b, a
    E.assume(a.fields["f"])
    if isinstance(b, str) or b is None: return False
    if isinstance(b, float) and math.isinf(b): return a.fields["i"] == 0
    if isinstance(b, int) or is_zint(b): return And(a.fields["i"] != 0, a.fields["n"] == zi(b))
    raise Unsupported("comparison of block lengths")
def rev(E, args, kw):
    x = args[0]
    if isinstance(x, SymSeq): n = x.length; g = x.get; return SymSeq(E, lambda i: g(zi(n) - 1 - i), n, "list")
    return MISSING
def aset(E, args, kw):
    if not args: return Obj(E, "ASet", {"parts": ()})
    if isinstance(args[0], (SymSeq, FilterSeq, PyList, PySet, tuple)): return Obj(E, "ASet", {"parts": (snap(args[0]),)})
    if isinstance(args[0], Obj) and args[0].cls == "ASet": return Obj(E, "ASet", {"parts": args[0].fields["parts"]})
    return MISSING
def snap(x):
    if isinstance(x, SymSeq): g, n = x.get, zi(x.length); return (lambda j: g(j), n, lambda j: True)
    if isinstance(x, FilterSeq): return (x.elt, zi(x.length), x.cond)
    items = list(x.items) if isinstance(x, (PyList, PySet)) else list(x); return items
def aset_attr(E, o, name):
    F = o.fields
    if name == "add": return lambda E, x: E.setfield(o, "parts", F["parts"] + ([x],))
    if name == "update": return lambda E, *xs: E.setfield(o, "parts", F["parts"] + tuple(p for x in xs for p in parts_of(x)))
    if name == "union": return lambda E, *xs: Obj(E, "ASet", {"parts": F["parts"] + tuple(p for x in xs for p in parts_of(x))})
    if name == "copy": return lambda E: Obj(E, "ASet", {"parts": F["parts"]})
    return MISSING
def aset_or(E, a, b): return Obj(E, "ASet", {"parts": tuple(parts_of(a)) + tuple(parts_of(b))})
def parts_of(x):
    if isinstance(x, Obj) and x.cls == "ASet": return x.fields["parts"]
    if isinstance(x, (SymSeq, FilterSeq, PyList, PySet, tuple)): return (snap(x),)
    raise Unsupported("set of symbols")
def member(E, sd, parts, i):
    """cell i's symbol is in the listing"""
    y = sd.cell(i); out = []
    for p in parts:
        if isinstance(p, list): out += [zi(e) == y for e in p]; continue
        get, n, cond = p
        for j in sd.spots(i, n): out.append(And(j >= 0, j < n, zb(cond(j)), zi(get(j)) == y))
    return Or(*out) if out else z3.BoolVal(False)
def wraps(E, m): return m is E.ghost["tm"] or isinstance(m, Obj) and m.cls == "Stack" and wraps(E, m.fields["base"])
def mk_stack(E, c, args, kw):
    if c.name == "Block_Macro_Machine":
        v = dict(zip(["base_machine", "block_size", "offset"], args)); v.update(kw); o = v.get("offset"); E.prove("block machine: at least one cell, offset inside the block", And(zi(v["block_size"]) >= 1, True if o is None else And(zi(o) >= 0, zi(o) < zi(v["block_size"]))))
    else: v = dict(zip(["base_machine"], args)); v.update(kw)
    E.prove("macro machine: stands for the machine", wraps(E, v["base_machine"])); return Obj(E, "Stack", {"base": v["base_machine"]})
def sim_new(E, c, args, kw):
    v = dict(zip(["machine", "options", "verbose_prefix", "init_tape", "is_base_simulator"], args)); v.update(kw); g = E.ghost
    E.prove("the run-in is the machine's, from the start", And(wraps(E, v["machine"]), v.get("init_tape", True) is True)); g["m"] = v["machine"]; sides = [Side(E, 0), Side(E, 1)]; g["sides"] = sides
    def view(s): sd = sides[s]; return SymSeq(E, lambda i: sd.block(E, i), sd.L, "list")
    tape = Obj(E, "STape", {"tape": PyList(E, [view(0), view(1)]), "dir": g["d0"]}); s = Obj(E, "Sim", {"op_state": E.case("Running", "Halt", "Inf_Repeat", "Undefined"), "state": g["q0"], "dir": g["d0"], "tape": tape, "step_num": E.int("steps"), "num_loops": E.int("loops")}); g["sim"] = s; return s
def sim_attr(E, o, name):
    if name in o.fields: return o.fields[name]
    if name in ("seek", "loop_seek", "run", "step", "loop_run"):
        def f(E, *a): return None
        return f
    return MISSING
EX = {("new", "Block_Macro_Machine"): mk_stack, ("new", "Backsymbol_Macro_Machine"): mk_stack, ("new", "Simulator"): sim_new, ("Sim", "attr"): sim_attr, ("Cnt", "less"): cnt_less, ("Cnt", "eq"): cnt_eq, ("builtin", "reversed"): rev, ("builtin", "set"): aset, ("builtin", "frozenset"): aset, ("ASet", "attr"): aset_attr, ("ASet", "or"): aset_or, ("ASet", "binop"): lambda E, op, a, b: aset_or(E, a, b) if type(op).__name__ == "BitOr" else MISSING,
      ("new", "GenContainer"): lambda E, c, a, kw: Obj(E, "Config", dict(kw))}
class TestCTL(Contract):
    qualname = "test_CTL"; params = ["base_tm", "cutoff", "block_size", "offset", "use_backsymbol", "verbose"]; exts = EX; feas_ms = 100
    def __init__(self, v): self.v = v; self.module = "CTL%d" % v
    def args(self, E):
        g = E.ghost; tm = Obj(E, "AbsTM", {"init_symbol": BL}); g.update(tm=tm, q0=E.int("q0"), d0=E.int("d0"), said=None); E.assume(And(g["d0"] >= 0, g["d0"] <= 1)); bs = E.int("block"); E.assume(bs >= 1)      # a block of one cell has no offset
        return NS(base_tm=tm, cutoff=E.int("cutoff"), block_size=bs, offset=None if E.branch(bs == 1) else E.case(None, E.int("offset")), use_backsymbol=E.bool("back"), verbose=False)
    def pre(self, E, a): return [("a block of at least one cell", zi(a.block_size) >= 1), ("an offset inside the block", True if a.offset is None else And(zi(a.offset) >= 0, zi(a.offset) < zi(a.block_size)))]
    def setup(self, E):
        stub(E, SIM, "create_default_options", [], lambda E, a: Obj(E, "Options", {}))
        stub(E, self.module, "CTL", ["machine", "config", "end_time", "verbose"] if self.v < 3 else ["machine", "config", "verbose"], self.called)
    def called(self, E, a):
        g = E.ghost; v = self.v; F = a.config.fields; sm = g["sim"].fields
        E.prove("CTL judges the machine that was run in", a.machine is g["m"]); E.prove("the run-in is still going", sm["op_state"] == "Running"); E.prove("from the state and direction reached", And(zi(F["state"]) == g["q0"], zi(F["dir"]) == g["d0"]))
        for s in (0, 1):
            sd = g["sides"][s]; name = ("left", "right")[s] + " side: "; n0 = sd.n0; i = E.int("i"); E.assume(i >= 0); last, last2 = n0 - 1, n0 - 2
            for j in (i, z3.IntVal(0), z3.IntVal(1), n0 - 1, n0 - 2): E.assume(Implies(j >= 0, sd.where(j)))
            c0 = z3.IntVal(0)
            if v <= 2:
                x = F["tape"]; x = (x.items if isinstance(x, PyList) else x)[s]; n = zi(x.length) if isinstance(x, (SymSeq, FilterSeq)) else z3.IntVal(len(x.items))
                if v == 1: E.prove(name + "every cell before the endless blank is listed", Implies(i < n0, member(E, sd, parts_of(x), i))); continue
                if isinstance(x, FilterSeq): raise Unsupported("filtered listing")
                get = x.get if isinstance(x, SymSeq) else (lambda j: x.items[-1] if x.items else BL); m = Ite(n0 > 0, n0 - 1, 0)
                E.prove(name + "nothing listed: a blank side", Implies(n == 0, n0 == 0)); E.prove(name + "the last cell is listed last", Implies(n > 0, zi(get(n - 1)) == sd.cell(m)) if not (isinstance(x, PyList) and not x.items) else True)
                head = (lambda j: get(j), n - 1, lambda j: True) if isinstance(x, SymSeq) else list(x.items[:-1])
                E.prove(name + "every other cell is listed before it", Implies(i < m, member(E, sd, (head,), i))); continue
            t = F["init_sets"]; t = (t.items if isinstance(t, PyList) else t)[s]; t = t.items if isinstance(t, PyList) else t
            if len(t) != (2 if v == 3 else 3): raise Unsupported("sets")
            P = [parts_of(x) for x in t]
            if v == 3:
                n = Ite(n0 > 0, n0 - 1, 0); E.prove(name + "the first cell is in A", member(E, sd, P[0], c0)); E.prove(name + "every later cell is in B", Implies(And(1 <= i, i <= n), member(E, sd, P[1], i))); continue
            n = Ite(n0 > 1, n0 - 2, 0); E.assume(And(sd.where(n), sd.where(n + 1)))
            E.prove(name + "the cell before the last is in B", member(E, sd, P[1], n)); E.prove(name + "the last cell (or the blank after it) is in C", member(E, sd, P[2], n + 1)); E.prove(name + "every other cell is in A", Implies(i < n, member(E, sd, P[0], i)))
        r = E.bool("shown"); g["said"] = r; return (r, E.int("iters"))
    def post(self, E, old, a, r):
        if not (isinstance(r, tuple) and len(r) == 2): raise Unsupported("result")
        s = E.ghost["said"]; return [("infinite only as CTL says", Implies(zb(E.truth(r[0])), s) if s is not None else Not(zb(E.truth(r[0])))), ("infinite whenever CTL says so", Implies(s, zb(E.truth(r[0]))) if s is not None else True)]
CONTRACTS = [TestCTL(v) for v in (1, 2, 3, 4)]; LEMMAS = []
