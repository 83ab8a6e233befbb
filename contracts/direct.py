"""Contracts of Code/Direct_Simulator.py."""
import z3
from pyvc.engine import *
from pyvc.contract import *
from .tmspec import *

M = "Direct_Simulator"

def mk_content(E, name): 
    f = E.func(name, I, I)
    return lambda i: f(i)

# ---- representation level -------------------------------------------------
def rep_tape(E, name="T"):
    n, idx, pos, init = E.int("len"), E.int("index"), E.int("position"), E.int("init")
    seq = SymSeq(E, mk_content(E, name), n, "deque", mk=mk_content)
    o = E.new(M, "DirectTape", init_symbol=init, tape=seq, index=idx, position=pos)
    E.assume(And(0 <= idx, idx < n))
    return o

def seqlen(s): return s.length if isinstance(s, SymSeq) else len(s.items)

def rep_ok(E, o):
    """Has the representation this contract knows?"""
    for f in ("tape", "index", "position", "init_symbol"):
        if f not in o.fields: raise Unsupported("tape representation changed (no field %s)" % f)
    if not isinstance(o.fields["tape"], (SymSeq, PyList)): raise Unsupported("tape representation changed")

def wf(E, o):
    rep_ok(E, o)
    return And(0 <= zi(o.fields["index"]), zi(o.fields["index"]) < zi(seqlen(o.fields["tape"])))

def rep_view(E, o):
    """Cells as a function of the position, captured at this moment."""
    rep_ok(E, o)
    t = o.fields["tape"]; n = zi(seqlen(t)); g = E.getter(t)
    idx, pos, init = zi(o.fields["index"]), zi(o.fields["position"]), zi(o.fields["init_symbol"])
    def v(p):
        i = p - pos + idx
        return z3.If(And(i >= 0, i < n), zi(g(i)), init)
    return v

# ---- abstract level -------------------------------------------------------
def abs_tape(E, name="V", view=None, pos=None, init=None):
    o = E.new(M, "DirectTape")
    if view is None:
        f = E.func(name, I, I); view = lambda p: f(p)
    o.fields["position"] = pos if pos is not None else E.int("pos")
    o.fields["init_symbol"] = init if init is not None else E.int("init")
    o.fields["__view__"] = view
    return o

def view_of(o):
    v = o.fields.get("__view__")
    if v is None: raise Unsupported("tape without abstract view")
    return v

def havoc_tape(E, o, field):
    if field == "__view__":
        f = E.func("V", I, I)
        o.fields["__view__"] = lambda p: f(p)
        return True
    return False

EXTS = {("DirectTape", "havoc"): havoc_tape}


class TapeOp(Contract):
    """Spec: state (view, position, init) -> (view', position', result)."""
    module = M
    writes = True
    def extra_args(self, E): return {}
    def spec(self, E, view, pos, init, a): raise NotImplementedError
    def args(self, E):
        return NS(self=rep_tape(E), **self.extra_args(E))
    def old(self, E, a):
        if "__view__" in a.self.fields:
            return NS(view=view_of(a.self), pos=a.self.fields["position"], init=a.self.fields["init_symbol"])
        return NS(view=rep_view(E, a.self), pos=a.self.fields["position"], init=a.self.fields["init_symbol"])
    def modifies(self, E, a):
        if not self.writes: return []
        t = a.self.fields.get("tape")
        return [(a.self, "index"), (a.self, "position"), (a.self, "tape")] + ([(t, "*")] if t is not None else [])
    def modifies_tape(self, E, a, old): return []
    def post(self, E, old, a, r):
        v, p, res = self.spec(E, old.view, old.pos, old.init, a)
        nv = rep_view(E, a.self)
        out = [("representation invariant", wf(E, a.self)),
               ("head position", zi(a.self.fields["position"]) == p),
               ("blank symbol unchanged", zi(a.self.fields["init_symbol"]) == old.init),
               ("every cell", Forall([I], lambda q: nv(q) == v(q)))]
        out += self.post_result(E, old, a, r, res)
        return out
    def post_result(self, E, old, a, r, res):
        if res is None: return []
        return [("result", zi(r) == res)]
    # abstract use
    def apply_call(self, E, f, argv):
        if len(argv) != len(self.params): raise Unsupported("signature changed")
        a = NS(**dict(zip(self.params, argv)))
        if not isinstance(a.self, Obj) or "__view__" not in a.self.fields: raise Unsupported("tape without abstract view")
        for lab, c in self.pre(E, a): E.prove("call %s: requires %s" % (self.qualname, lab), c)
        old = self.old(E, a)
        v, p, res = self.spec(E, old.view, zi(old.pos), zi(old.init), a)
        if self.writes:
            E.setfield(a.self, "__view__", v)
            E.setfield(a.self, "position", p)
        return self.abs_result(E, old, a, res)
    def abs_result(self, E, old, a, res): return res


class Init(TapeOp):
    qualname = "DirectTape.__init__"; params = ["self", "init_symbol"]
    def args(self, E):
        return NS(self=E.new(M, "DirectTape"), init_symbol=E.int("init"))
    def old(self, E, a): return NS(view=None, pos=None, init=zi(a.init_symbol))
    def modifies(self, E, a): return [(a.self, None)]
    def spec(self, E, view, pos, init, a): return (lambda p: zi(a.init_symbol)), z3.IntVal(0), None
    def apply_call(self, E, f, argv):
        a = NS(**dict(zip(self.params, argv)))
        if a.init_symbol is None: raise Unsupported("blank_init_symbol mode")
        v, p, _ = self.spec(E, None, None, None, a)
        E.setfield(a.self, "__view__", v); E.setfield(a.self, "position", p); E.setfield(a.self, "init_symbol", a.init_symbol)

class Read(TapeOp):
    qualname = "DirectTape.read"; params = ["self"]; writes = False
    def spec(self, E, view, pos, init, a): return view, pos, view(pos)

class Write(TapeOp):
    qualname = "DirectTape.write"; params = ["self", "symbol"]
    def extra_args(self, E): return dict(symbol=E.int("sym"))
    def spec(self, E, view, pos, init, a):
        s = zi(a.symbol)
        return (lambda p: z3.If(p == pos, s, view(p))), pos, None

class Move(TapeOp):
    qualname = "DirectTape.move"; params = ["self", "dir"]
    def extra_args(self, E): return dict(dir=E.int("dir"))
    def pre(self, E, a):
        return [("dir is LEFT or RIGHT", Or(zi(a.dir) == 0, zi(a.dir) == 1))]
    def spec(self, E, view, pos, init, a):
        return view, z3.If(zi(a.dir) == 1, pos + 1, pos - 1), None

class ReadPos(TapeOp):
    qualname = "DirectTape.read_pos"; params = ["self", "pos"]; writes = False
    def extra_args(self, E): return dict(pos=E.int("p"))
    def spec(self, E, view, pos, init, a): return view, pos, view(zi(a.pos))

class WritePos(TapeOp):
    qualname = "DirectTape.write_pos"; params = ["self", "symbol", "pos"]
    def extra_args(self, E): return dict(symbol=E.int("sym"), pos=E.int("p"))
    def spec(self, E, view, pos, init, a):
        s, q = zi(a.symbol), zi(a.pos)
        return (lambda p: z3.If(p == q, s, view(p))), pos, None

class Leftmost(TapeOp):
    qualname = "DirectTape.pos_leftmost"; params = ["self"]; writes = False
    def spec(self, E, view, pos, init, a): return view, pos, None
    def post_result(self, E, old, a, r, res):
        return [("nothing but blanks further left", Forall([I], lambda q: Implies(q < zi(r), old.view(q) == old.init))),
                ("not right of the head", zi(r) <= old.pos)]
    def abs_result(self, E, old, a, res):
        r = E.int("leftmost")
        E.assume(Forall([I], lambda q: Implies(q < r, old.view(q) == zi(old.init)), patterns=pat(old.view)))
        E.assume(r <= zi(old.pos))
        return r

class Rightmost(TapeOp):
    qualname = "DirectTape.pos_rightmost"; params = ["self"]; writes = False
    def spec(self, E, view, pos, init, a): return view, pos, None
    def post_result(self, E, old, a, r, res):
        return [("nothing but blanks further right", Forall([I], lambda q: Implies(q > zi(r), old.view(q) == old.init))),
                ("not left of the head", zi(r) >= old.pos)]
    def abs_result(self, E, old, a, res):
        r = E.int("rightmost")
        E.assume(Forall([I], lambda q: Implies(q > r, old.view(q) == zi(old.init)), patterns=pat(old.view)))
        E.assume(r >= zi(old.pos))
        return r

def pat(view):
    """Use view(q) as trigger when it is a plain uninterpreted application."""
    def f(q):
        t = view(q)
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED: return [t]
        return None
    q = z3.Int("probe")
    return f if f(q) else None

class Copy(TapeOp):
    qualname = "DirectTape.copy"; params = ["self"]; writes = False
    def spec(self, E, view, pos, init, a): return view, pos, None
    def post_result(self, E, old, a, r, res):
        if not isinstance(r, Obj): raise Unsupported("copy result")
        rv = rep_view(E, r)
        return [("copy is a new object", r is not a.self),
                ("copy shares no storage", r.fields["tape"] is not a.self.fields["tape"]),
                ("copy representation invariant", wf(E, r)),
                ("copy position", zi(r.fields["position"]) == zi(old.pos)),
                ("copy blank symbol", zi(r.fields["init_symbol"]) == zi(old.init)),
                ("copy has every cell", Forall([I], lambda q: rv(q) == old.view(q)))]
    def abs_result(self, E, old, a, res):
        return abs_tape(E, view=old.view, pos=old.pos, init=old.init)

class CountNonzero(TapeOp):
    qualname = "DirectTape.count_nonzero"; params = ["self"]; writes = False
    def spec(self, E, view, pos, init, a): return view, pos, None
    def G(self, E, o):
        if "G" not in E.ghost:
            G = E.func("G", I, I); E.assume(G(0) == 0); E.ghost["G"] = G
        return E.ghost["G"]
    def unfoldG(self, E, o, k):
        G = self.G(E, o); g = E.getter(o.fields["tape"])
        return G(k + 1) == G(k) + z3.If(zi(g(k)) != zi(o.fields["init_symbol"]), 1, 0)
    def args(self, E):
        a = TapeOp.args(self, E); E.ghost["tape"] = a.self; self.G(E, a.self); return a
    def loops(self):
        def cands(E, env):
            out = []
            o = E.ghost["tape"]
            for n, v in sorted(env.fr.locals.items()):
                if isinstance(v, int) and not isinstance(v, bool) or is_zint(v):
                    out.append(("%s counts the non-blank cells seen" % n, zi(v) == self.G(E, o)(zi(env.k))))
            return out
        return [Loop("count", lambda E, env: [], candidates=cands, head=lambda E, env: E.assume(self.unfoldG(E, E.ghost["tape"], env.k)))]
    def lemmas(self, E, old, a, r):
        G = self.G(E, a.self)
        for s in E.ghost.get("sums", []):
            E.induct("sum equals the number of non-blank cells", s["n"], lambda k: s["F"](k) == G(k),
                     unfold=lambda k: [s["unfold"](k), self.unfoldG(E, a.self, k)])
    def post_result(self, E, old, a, r, res):
        return [("number of non-blank stored cells", zi(r) == self.G(E, a.self)(zi(seqlen(a.self.fields["tape"]))))]
    def abs_result(self, E, old, a, res):
        r = E.int("score")
        E.ghost.setdefault("counts", []).append((old.view, r))
        return r

TAPE = [Init(), Read(), Write(), Move(), ReadPos(), WritePos(), Leftmost(), Rightmost(), Copy(), CountNonzero()]

# ---- machine look-up --------------------------------------------------------
class GetTrans(Contract):
    """Simple_Machine look-up: the cell of the table for (state, symbol)."""
    module = "Macro.Turing_Machine"; qualname = "Simple_Machine.get_trans_object"
    params = ["self", "symbol_in", "state_in", "dir_in"]
    def args(self, E):
        ns, nk = E.int("nstates"), E.int("nsymbols")
        cell = E.func("cell", I, I, z3.DeclareSort("Trans"))
        row = lambda st: SymSeq(E, lambda sy: cell(st, sy), nk)
        tm = E.new("Macro.Turing_Machine", "Simple_Machine", trans_table=SymSeq(E, row, ns), num_states=ns, num_symbols=nk)
        E.ghost["cell"] = cell
        a = NS(self=tm, symbol_in=E.int("sym"), state_in=E.int("state"), dir_in=E.case(None, E.int("dir")))
        E.assume(And(a.symbol_in >= 0, a.symbol_in < nk, a.state_in >= 0, a.state_in < ns))
        return a
    def post(self, E, old, a, r):
        return [("table cell of (state, symbol)", r == E.ghost["cell"](a.state_in, a.symbol_in))]
    def apply_call(self, E, f, argv):
        a = NS(**dict(zip(self.params, argv)))
        sy, st = zi(a.symbol_in), zi(a.state_in)
        E.prove("call get_trans_object: requires a running state", st != -1)
        E.assume(table_wf(sy, st))
        return E.new("Macro.Turing_Machine", "Transition", symbol_out=SO(sy, st), dir_out=DO(sy, st), state_out=NX(sy, st), num_base_steps=1,
                     condition=Opaque("condition"), condition_details=Opaque("details"), states_last_seen=Opaque("sls"))

# ---- simulator ---------------------------------------------------------------
def mk_tm(E):
    return E.new("Macro.Turing_Machine", "Simple_Machine", init_state=E.int("init_state"), init_symbol=E.int("blank"),
                 num_states=E.int("num_states"), num_symbols=E.int("num_symbols"), init_dir=1)

def mk_sim(E, tm=None, halted=None):
    tm = tm or mk_tm(E)
    h = halted if halted is not None else E.bool("halted")
    sim = E.new(M, "DirectSimulator", tm=tm, halted=h, state=E.int("state"), tape=abs_tape(E), step_num=E.int("steps"))
    return sim

class SimInit(Contract):
    module = M; qualname = "DirectSimulator.__init__"; params = ["self", "tm", "initialize", "blank_init_symbol"]
    def args(self, E): return NS(self=E.new(M, "DirectSimulator"), tm=mk_tm(E), initialize=E.case(True, False), blank_init_symbol=False)
    def modifies(self, E, a): return [(a.self, None)]
    def post(self, E, old, a, r):
        s = a.self.fields
        if not a.initialize: return [("machine stored", s.get("tm") is a.tm)]
        return [("machine stored", s.get("tm") is a.tm), ("not halted", E.truth(s["halted"]) is False or Not(E.truth(s["halted"]))),
                ("start state", zi(s["state"]) == zi(a.tm.fields["init_state"])),
                ("step counter is 0", zi(s["step_num"]) == 0),
                ("head at 0", zi(s["tape"].fields["position"]) == 0),
                ("blank symbol", zi(s["tape"].fields["init_symbol"]) == zi(a.tm.fields["init_symbol"])),
                ("blank tape", Forall([I], lambda p: view_of(s["tape"])(p) == zi(a.tm.fields["init_symbol"])))]
    def apply_call(self, E, f, argv):
        a = NS(**dict(zip(self.params, argv)))
        if a.blank_init_symbol is not False: raise Unsupported("blank_init_symbol")
        E.setfield(a.self, "tm", a.tm)
        if a.initialize is False: return None
        if a.initialize is not True: raise Unsupported("initialize")
        b = zi(a.tm.fields["init_symbol"])
        E.setfield(a.self, "halted", False); E.setfield(a.self, "state", a.tm.fields["init_state"])
        E.setfield(a.self, "tape", abs_tape(E, view=lambda p: b, pos=z3.IntVal(0), init=b))
        E.setfield(a.self, "step_num", z3.IntVal(0))

class SimCopy(Contract):
    module = M; qualname = "DirectSimulator.copy"; params = ["self"]
    def args(self, E): return NS(self=mk_sim(E))
    def old(self, E, a): return snap(a.self)
    def post(self, E, old, a, r):
        if not isinstance(r, Obj): raise Unsupported("copy result")
        f = r.fields
        return [("new simulator object", r is not a.self), ("new tape object", f["tape"] is not a.self.fields["tape"]),
                ("state", zi(f["state"]) == old.state), ("halted flag", E.truth_eq(f["halted"], old.halted)), ("steps", zi(f["step_num"]) == old.n),
                ("same machine", f["tm"] is a.self.fields["tm"]),
                ("position", zi(f["tape"].fields["position"]) == old.pos),
                ("every cell", Forall([I], lambda p: view_of(f["tape"])(p) == old.view(p)))]

def snap(sim):
    f = sim.fields; t = f["tape"]
    return NS(state=zi(f["state"]), halted=f["halted"], n=zi(f["step_num"]), pos=zi(t.fields["position"]), view=view_of(t), init=zi(t.fields["init_symbol"]), tape=t)

def sim_frame(sim):
    t = sim.fields["tape"]
    return [(sim, x) for x in ("state", "halted", "halt_score", "halt_from_state", "halt_from_symbol", "step_num")] + [(t, "__view__"), (t, "position")]

class SimStep(Contract):
    module = M; qualname = "DirectSimulator.step"; params = ["self"]
    def args(self, E): return NS(self=mk_sim(E))
    def pre(self, E, a):
        f = a.self.fields
        return [("halted exactly when in the halt state", E.truth(f["halted"]) == (zi(f["state"]) == -1) if is_z(f["halted"]) else (zi(f["state"]) == -1) == z3.BoolVal(f["halted"]))]
    def old(self, E, a): return snap(a.self)
    def modifies(self, E, a): return sim_frame(a.self)
    def post(self, E, old, a, r):
        f = a.self.fields; t = f["tape"]
        v, p, s = spec_step(old.view, old.pos, old.state)
        run = Not(E.truth(old.halted))
        h = E.truth(f["halted"])
        out = [("a halted simulator is unchanged", Implies(Not(run), And(zi(f["state"]) == old.state, zi(t.fields["position"]) == old.pos, zi(f["step_num"]) == old.n, h))),
               ("a halted tape is unchanged", Forall([I], lambda q: Implies(Not(run), view_of(t)(q) == old.view(q)))),
               ("next state", Implies(run, zi(f["state"]) == s)), ("head move", Implies(run, zi(t.fields["position"]) == p)),
               ("step counted once", Implies(run, zi(f["step_num"]) == old.n + 1)),
               ("halted exactly when the halt state is entered", Implies(run, E.truth(f["halted"]) == (s == -1) if is_z(E.truth(f["halted"])) else (s == -1) == z3.BoolVal(E.truth(f["halted"])))),
               ("every cell", Forall([I], lambda q: Implies(run, view_of(t)(q) == v(q)), patterns=pat(view_of(t)))),
               ("same tape object", t is old.tape)]
        return out
    def lemmas(self, E, old, a, r):
        """Halting metadata (only proved at the definition)."""
        f = a.self.fields; t = f["tape"]
        run = Not(E.truth(old.halted)); s = spec_step(old.view, old.pos, old.state)[2]
        just = And(run, s == -1)
        if isinstance(just, bool) or E.feasible(just):
            if E.branch(zb(just)):
                cs = E.ghost.get("counts", [])
                ok = [c for c in cs if c[1] is f.get("halt_score")]
                E.prove("ensures score is the count of a tape", len(ok) == 1)
                if ok: E.prove("ensures the counted tape is the final tape", Forall([I], lambda q: ok[0][0](q) == view_of(t)(q)))
                E.prove("ensures halting state reported", zi(f.get("halt_from_state", -99)) == old.state)
                E.prove("ensures halting symbol reported", zi(f.get("halt_from_symbol", -99)) == old.view(old.pos))
    def havoc(self, E, a, old):
        Contract.havoc(self, E, a, old)
        for x in ("halt_score", "halt_from_state", "halt_from_symbol"): E.setfield(a.self, x, E.int(x))

def on_trace(E, sim):
    """sim is the trace at its own step number."""
    f = sim.fields; t = f["tape"]; n = zi(f["step_num"])
    h = E.truth(f["halted"])
    h = z3.BoolVal(h) if isinstance(h, bool) else h
    v = view_of(t)
    return [("steps not negative", n >= 0), ("state on trace", zi(f["state"]) == St(n)), ("position on trace", zi(t.fields["position"]) == Po(n)),
            ("tape on trace", Forall([I], lambda p: v(p) == Ta(n, p), patterns=pat(v))), ("halted iff in the halt state", h == (St(n) == -1))]

class SimSeek(Contract):
    module = M; qualname = "DirectSimulator.seek"; params = ["self", "target_step_num"]
    names = {"self", "target_step_num"}
    def args(self, E):
        E.ghost["target"] = E.int("target")
        s = mk_sim(E); E.ghost["sim"] = s
        return NS(self=s, target_step_num=E.ghost["target"])
    def pre(self, E, a): return on_trace(E, a.self)
    def old(self, E, a): return snap(a.self)
    def modifies(self, E, a): return sim_frame(a.self)
    def loops(self):
        def inv(E, env):
            s = E.ghost["sim"]; n = zi(s.fields["step_num"])
            return on_trace(E, s) + [("never past the target", Or(n <= E.ghost["target"], n == E.ghost["n0"])), ("never backwards", n >= E.ghost["n0"])]
        def pre(E, env): pass
        return [Loop("seek", inv, head=lambda E, env: unfold(E, zi(E.ghost["sim"].fields["step_num"])))]
    def post(self, E, old, a, r):
        f = a.self.fields; n = zi(f["step_num"]); tg = zi(a.target_step_num)
        return on_trace(E, a.self) + [("halted or at the target", Or(St(n) == -1, n == z3.If(tg > old.n, tg, old.n))), ("never past", Or(n <= tg, n == old.n)), ("not backwards", n >= old.n)]
    def old(self, E, a):
        s = snap(a.self); E.ghost["n0"] = s.n; return s

SIM = [GetTrans(), SimInit(), SimCopy(), SimStep(), SimSeek()]
CONTRACTS = TAPE + SIM
