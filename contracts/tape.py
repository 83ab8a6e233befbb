"""Contracts of Code/Macro/Tape.py (run-length compressed tape).

A half tape is a stack of blocks; the contract's view of it is the function
distance-from-head -> symbol.  Unknown lower blocks are kept as a view function
and unfolded one block at a time (bottom infinite block, or a finite block on
top of a non-empty rest): the usual inductive predicate for a linked stack.
"""
import math, z3
from pyvc.engine import *
from pyvc.contract import *
M = "Macro.Tape"
I = z3.IntSort()
INF = math.inf

def mk_block(E, symbol, num):
    return E.new(M, "Repeated_Symbol", symbol=symbol, num=num, id=None)

def mk_half(E, name="B"):
    f = E.func(name, I, SYM)
    h = Obj(E, "HalfTape", {})
    h.fields["base"] = lambda i: f(i)
    h.fields["tail"] = []
    h.meta["f"] = f
    return h

def unfold_half(E, h):
    """Expose the top block of the unknown part."""
    B = h.fields["base"]
    if B is None: raise PyRaise("IndexError", "empty half tape")
    s = E.fresh(SYM, "s")
    if E.choose(2) == 0:
        E.assume(Forall([I], lambda i: Implies(i >= 0, B(i) == s), patterns=lambda i: [B(i)]))
        h.fields["tail"].insert(0, mk_block(E, s, INF)); h.fields["base"] = None
    else:
        n = E.int("num"); E.assume(n >= 1)
        f = E.func("B", I, SYM)
        E.assume(Forall([I], lambda i: Implies(i >= 0, B(i) == z3.If(i < n, s, f(i - n))), patterns=lambda i: [B(i)]))
        h.fields["tail"].insert(0, mk_block(E, s, n)); h.fields["base"] = lambda i: f(i)

def h_getitem(E, h, k):
    if isinstance(k, bool): k = int(k)
    if isinstance(k, int) and k < 0:
        while len(h.fields["tail"]) < -k: unfold_half(E, h)
        return h.fields["tail"][k]
    raise Unsupported("half-tape index %r" % (k,))

def h_attr(E, h, name):
    if name == "append":
        def f(E, x):
            E.note_write("half", h, "*"); h.fields["tail"] = h.fields["tail"] + [x]
        return f
    if name == "pop":
        def f(E, *a):
            if a: raise Unsupported("pop(i)")
            if not h.fields["tail"]: unfold_half(E, h)
            E.note_write("half", h, "*"); x = h.fields["tail"][-1]; h.fields["tail"] = h.fields["tail"][:-1]; return x
        return f
    raise Unsupported("half-tape method " + name)

def h_truth(E, h): return True if h.fields["tail"] or h.fields["base"] is not None else False

def h_comp(E, h, e):
    """[f(x) for x in half]: shown to map every block to a fresh equal block."""
    g = e.generators[0]
    if g.ifs: raise Unsupported("filtered copy")
    fr = E.frames[-1]
    def ev(x):
        nf = Frame(fr.func, dict(fr.locals), fr.module, fr.closure)
        E.frames.append(nf)
        try:
            E.assign(g.target, x); return E.eval(e.elt)
        finally: E.frames.pop()
    h2 = Obj(E, "HalfTape", {})
    h2.fields["tail"] = []
    h2.fields["base"] = None
    if h.fields["base"] is not None:
        x = mk_block(E, E.fresh(SYM, "s"), E.case(INF, E.int("n")))
        mark = E._oid
        y = ev(x)
        if not isinstance(y, Obj): raise Unsupported("copy of block")
        E.prove("every copied block is a new object", y.oid > mark)
        E.prove("every copied block has the same symbol", E.truth_eq(y.fields["symbol"], x.fields["symbol"]))
        E.prove("every copied block has the same count", E.truth_eq(y.fields["num"], x.fields["num"]))
        E.prove("every copied block has the same id", E.truth_eq(y.fields["id"], x.fields["id"]))
        h2.fields["base"] = h.fields["base"]
    for x in h.fields["tail"]: h2.fields["tail"].append(ev(x))
    return h2

def h_iter(E, h):
    raise Unsupported("iteration")

EXTS = {("HalfTape", "getitem"): h_getitem, ("HalfTape", "attr"): h_attr, ("HalfTape", "truth"): h_truth, ("HalfTape", "comp"): h_comp}

def view(E, h):
    """distance -> symbol, captured now; plus well-formedness of the known part."""
    if isinstance(h, PyList): tail, base = list(h.items), None
    elif isinstance(h, Obj) and h.cls == "HalfTape": tail, base = list(h.fields["tail"]), h.fields["base"]
    else: raise Unsupported("half tape representation")
    blocks = [(b.fields["symbol"], b.fields["num"]) for b in tail]
    def v(i):
        r = base(i - sum_(n for _, n in blocks)) if base is not None else None
        acc = None
        def build(k, off):
            if k < 0: return base(i - off) if base is not None else blocks[0][0]
            s, n = blocks[k]
            if isinstance(n, float): return s
            return z3.If(i - off < zi(n), s, build(k - 1, off + zi(n)))
        return build(len(blocks) - 1, z3.IntVal(0))
    return v

def sum_(it):
    r = z3.IntVal(0)
    for x in it:
        if isinstance(x, float): return r
        r = r + zi(x)
    return r

def half_wf(E, h):
    if isinstance(h, PyList): tail, base = list(h.items), None
    else: tail, base = list(h.fields["tail"]), h.fields["base"]
    cs = []
    if base is None:
        if not tail: return [("half tape not empty", False)]
        cs.append(("bottom block is infinite", isinstance(tail[0].fields["num"], float) and math.isinf(tail[0].fields["num"])))
        fin = tail[1:]
    else: fin = tail
    for b in fin:
        n = b.fields["num"]
        cs.append(("finite blocks have positive counts", False if isinstance(n, float) else zi(n) >= 1))
    return cs

def halves(o):
    t = o.fields.get("tape")
    if not isinstance(t, PyList) or len(t.items) != 2: raise Unsupported("tape representation")
    return t.items

def mk_tape(E):
    d = E.case(0, 1)
    h0, h1 = mk_half(E, "L"), mk_half(E, "R")
    o = E.new(M, "Chain_Tape", dir=d, tape=PyList(E, [h0, h1]), options=Opaque("options"))
    return o

def known_dir(E, d):
    if isinstance(d, bool): return int(d)
    if isinstance(d, int): return d
    return 1 if E.branch(zb(E.truth(d))) else 0

def frame(E, a):
    hs = halves(a.self)
    out = [(a.self, "dir"), (a.self, "tape")]
    for h in hs:
        out.append((h, "*"))
    return out

def no_sharing(E, o, other=None):
    ids = []
    for h in halves(o): ids += [b.oid for b in (h.items if isinstance(h, PyList) else h.fields["tail"])]
    return len(ids) == len(set(ids))

class TapeC(Contract):
    module = M
    exts = {}
    def old(self, E, a):
        hs = halves(a.self)
        return NS(v=[view(E, h) for h in hs], dir=a.self.fields["dir"], hs=list(hs))
    def modifies(self, E, a):
        # blocks reachable from the two half tapes may change in place
        out = frame(E, a)
        return out
    def _frame_objs(self, a): return halves(a.self)

class Init(TapeC):
    qualname = "Chain_Tape.init"; params = ["self", "init_symbol", "init_dir", "options"]
    def args(self, E): return NS(self=E.new(M, "Chain_Tape"), init_symbol=E.fresh(SYM, "blank"), init_dir=E.case(0, 1), options=Opaque("options"))
    def old(self, E, a): return NS()
    def modifies(self, E, a): return [(a.self, None)]
    def post(self, E, old, a, r):
        hs = halves(a.self)
        out = [("direction", E.truth_eq(a.self.fields["dir"], a.init_dir)), ("halves are separate", hs[0] is not hs[1] and no_sharing(E, a.self))]
        for k in (0, 1):
            out += half_wf(E, hs[k])
            v = view(E, hs[k])
            out.append(("half %d is blank" % k, Forall([I], lambda i, v=v: Implies(i >= 0, v(i) == a.init_symbol))))
        return out

class TopBlock(TapeC):
    qualname = "Chain_Tape.get_top_block"; params = ["self"]
    def args(self, E): return NS(self=mk_tape(E))
    def modifies(self, E, a): return []
    def post(self, E, old, a, r):
        d = old.dir
        h = halves(a.self)[d]
        return [("the block next to the head", isinstance(r, Obj) and bool(h.fields["tail"]) and r is h.fields["tail"][-1])]

class TopSymbol(TapeC):
    qualname = "Chain_Tape.get_top_symbol"; params = ["self"]
    def args(self, E): return NS(self=mk_tape(E))
    def modifies(self, E, a): return []
    def post(self, E, old, a, r): return [("symbol under the head", E.truth_eq(r, old.v[old.dir](z3.IntVal(0))))]
    def apply_call(self, E, f, argv):
        t = argv[0]
        return t.fields["__v__"][known_dir(E, t.fields["dir"])](z3.IntVal(0))

class BlockOwner(TapeC):
    """Moves may only touch this tape: its blocks, lists and direction."""
    def post_common(self, E, old, a):
        hs = halves(a.self)
        out = [("halves stay separate lists", hs[0] is not hs[1]), ("no block is shared", no_sharing(E, a.self))]
        for k in (0, 1): out += half_wf(E, hs[k])
        return out
    def desc(self, E, oid): return repr(E._oid_objs.get(oid))
    def modifies(self, E, a):
        out = TapeC.modifies(self, E, a)
        # blocks that were materialised out of this tape
        for o in list(E._oid_objs.values()):
            if isinstance(o, Obj) and getattr(o.cls, "name", "") == "Repeated_Symbol": out += [(o, "num"), (o, "symbol"), (o, "id")]
        return out

class SingleMove(BlockOwner):
    qualname = "Chain_Tape.apply_single_move"; params = ["self", "new_symbol", "new_dir"]
    def args(self, E):
        return NS(self=mk_tape(E), new_symbol=E.fresh(SYM, "new"), new_dir=E.case(0, 1))
    def post(self, E, old, a, r):
        d, nd = old.dir, known_dir(E, a.new_dir)
        hs = halves(a.self); v = [view(E, h) for h in hs]
        out = self.post_common(E, old, a)
        out.append(("direction", E.truth_eq(a.self.fields["dir"], nd)))
        # remove the symbol under the head ...
        u = list(old.v)
        fr = u[d]; u[d] = lambda i, fr=fr: fr(i + 1)
        # ... and push the new one behind the new direction
        b = 1 - nd; bk = u[b]
        u[b] = lambda i, bk=bk: z3.If(i == 0, a.new_symbol, bk(i - 1))
        for k in (0, 1):
            out.append(("half %d: every cell" % k, Forall([I], lambda i, k=k: Implies(i >= 0, v[k](i) == u[k](i)))))
        return out
    def apply_call(self, E, f, argv):
        a = NS(**dict(zip(self.params, argv)))
        t = a.self; d = known_dir(E, t.fields["dir"]); nd = known_dir(E, a.new_dir)
        u = list(t.fields["__v__"])
        fr = u[d]; u[d] = lambda i, fr=fr: fr(i + 1)
        b = 1 - nd; bk = u[b]; s = a.new_symbol
        u[b] = lambda i, bk=bk: z3.If(i == 0, s, bk(i - 1))
        E.setfield(t, "__v__", u); E.setfield(t, "dir", nd)

class ChainMove(BlockOwner):
    qualname = "Chain_Tape.apply_chain_move"; params = ["self", "new_symbol"]
    def args(self, E): return NS(self=mk_tape(E), new_symbol=E.fresh(SYM, "new"))
    def post(self, E, old, a, r):
        d = old.dir; hs = halves(a.self); v = [view(E, h) for h in hs]
        out = self.post_common(E, old, a) + [("direction unchanged", E.truth_eq(a.self.fields["dir"], d))]
        top = old.v[d](z3.IntVal(0))
        if isinstance(r, float) and math.isinf(r):
            out.append(("infinite: only that symbol ahead", Forall([I], lambda i: Implies(i >= 0, old.v[d](i) == top))))
            for k in (0, 1): out.append(("infinite: half %d unchanged" % k, Forall([I], lambda i, k=k: Implies(i >= 0, v[k](i) == old.v[k](i)))))
        else:
            n = zi(r); b = 1 - d
            out += [("at least one symbol", n >= 1), ("all replaced symbols are equal", Forall([I], lambda i: Implies(And(i >= 0, i < n), old.v[d](i) == top))),
                    ("front advanced", Forall([I], lambda i: Implies(i >= 0, v[d](i) == old.v[d](i + n)))),
                    ("behind: new symbols", Forall([I], lambda i: Implies(i >= 0, v[b](i) == z3.If(i < n, a.new_symbol, old.v[b](i - n)))))]
        return out
    def apply_call(self, E, f, argv):
        a = NS(**dict(zip(self.params, argv)))
        t = a.self; d = known_dir(E, t.fields["dir"]); u = list(t.fields["__v__"]); b = 1 - d
        top = u[d](z3.IntVal(0)); fr = u[d]; bk = u[b]; s = a.new_symbol
        if E.choose(2) == 0:
            E.assume(Forall([I], lambda i: Implies(i >= 0, fr(i) == top)))
            return INF
        n = E.int("reps"); E.assume(n >= 1)
        E.assume(Forall([I], lambda i: Implies(And(i >= 0, i < n), fr(i) == top)))
        u[d] = lambda i: fr(i + n); u[b] = lambda i: z3.If(i < n, s, bk(i - n))
        E.setfield(t, "__v__", u)
        return n

class Copy(TapeC):
    qualname = "Chain_Tape.copy"; params = ["self"]
    def setup(self, E): E.quiet_attrs.add("num_copies")
    def args(self, E): return NS(self=mk_tape(E))
    def modifies(self, E, a): return []
    def post(self, E, old, a, r):
        if not isinstance(r, Obj): raise Unsupported("copy result")
        hs, ho = halves(r), halves(a.self)
        out = [("new tape object", r is not a.self), ("new list of halves", r.fields["tape"] is not a.self.fields["tape"]), ("direction", E.truth_eq(r.fields["dir"], old.dir)),
               ("options kept", r.fields["options"] is a.self.fields["options"]), ("no half is shared", len({id(x) for x in hs + ho}) == 4)]
        oids = {b.oid for h in ho for b in h.fields["tail"]}
        for k in (0, 1):
            if not (isinstance(hs[k], Obj) and hs[k].cls == "HalfTape"): raise Unsupported("copied half tape")
            v = view(E, hs[k])
            out.append(("half %d: no block is shared" % k, not any(b.oid in oids for b in hs[k].fields["tail"])))
            out.append(("half %d: every cell" % k, Forall([I], lambda i, k=k, v=v: Implies(i >= 0, v(i) == old.v[k](i)))))
        return out
    def apply_call(self, E, f, argv):
        t = argv[0]
        return abs_tape(E, v=list(t.fields["__v__"]), dir=t.fields["dir"])

class BlockCopy(Contract):
    module = M; qualname = "Repeated_Symbol.copy"; params = ["self"]
    def args(self, E):
        return NS(self=E.new(M, "Repeated_Symbol", symbol=E.fresh(SYM, "s"), num=E.case(INF, E.int("n")), id=E.case(None, E.int("id"))))
    def old(self, E, a): return NS(f=dict(a.self.fields))
    def post(self, E, old, a, r):
        if not isinstance(r, Obj): raise Unsupported("result")
        return [("new block", r is not a.self)] + [(x, E.truth_eq(r.fields.get(x, MISSING), old.f[x])) for x in ("symbol", "num", "id")]
    def apply_call(self, E, f, argv):
        o = argv[0]
        return E.new(M, "Repeated_Symbol", **{x: o.fields[x] for x in ("symbol", "num", "id")})

# ---- non-blank count: iteration over the blocks ------------------------------
def blocklist(E, name):
    n = E.int(name + "_n"); sy = E.func(name + "_sym", I, SYM); nu = E.func(name + "_num", I, I); G = E.func(name + "_G", I, I)
    E.assume(n >= 1); E.assume(G(0) == 0)
    h = Obj(E, "BlockList", {})
    def at(k):
        num = INF if E.branch(zb(k == 0)) else nu(k)
        return mk_block(E, sy(k), num)
    h.meta.update(n=n, at=at, G=G, sy=sy, nu=nu)
    return h

class Nonzeros(Contract):
    module = M; qualname = "Chain_Tape.get_nonzeros"; params = ["self", "eval_symbol", "state_value"]
    exts = {("BlockList", "iter"): lambda E, h: (h.meta["n"], h.meta["at"])}
    def args(self, E):
        EV = E.func("EV", SYM, I); E.ghost["EV"] = EV
        hs = [blocklist(E, "L"), blocklist(E, "R")]
        return NS(self=E.new(M, "Chain_Tape", dir=E.case(0, 1), tape=PyList(E, hs), options=Opaque("o")), eval_symbol=lambda E, s: EV(s), state_value=E.int("sv"))
    def unf(self, E, h, k):
        m = h.meta
        return m["G"](k + 1) == m["G"](k) + z3.If(k == 0, 0, E.ghost["EV"](m["sy"](k)) * m["nu"](k))
    def old(self, E, a): return NS(hs=list(a.self.fields["tape"].items))
    def loops(self):
        def pre(E, env):
            E.ghost["entry"] = {n: v for n, v in env.fr.locals.items() if (isinstance(v, int) and not isinstance(v, bool)) or is_zint(v)}
        def cands(E, env):
            h = env.it
            if not (isinstance(h, Obj) and h.cls == "BlockList"): raise Unsupported("loop over something else")
            return [("%s accumulates the block values" % n, zi(env.fr.locals[n]) == zi(v0) + h.meta["G"](zi(env.k))) for n, v0 in sorted(E.ghost["entry"].items())
                    if n in env.fr.locals and ((isinstance(env.fr.locals[n], int) and not isinstance(env.fr.locals[n], bool)) or is_zint(env.fr.locals[n]))]
        def head(E, env): E.assume(self.unf(E, env.it, env.k))
        return [Loop("blocks", lambda E, env: [], candidates=cands, pre=pre, head=head)]
    def post(self, E, old, a, r):
        return [("sum of the values of all cells plus the state value", zi(r) == a.state_value + sum_([h.meta["G"](h.meta["n"]) for h in old.hs]))]

CONTRACTS = [Init(), TopBlock(), TopSymbol(), SingleMove(), ChainMove(), Copy(), BlockCopy(), Nonzeros()]

# ---- abstract tape for callers -----------------------------------------------
def abs_tape(E, v=None, dir=None):
    if v is None:
        fs = [E.func("VL", I, SYM), E.func("VR", I, SYM)]
        v = [lambda i: fs[0](i), lambda i: fs[1](i)]
    o = E.new(M, "Chain_Tape", dir=dir if dir is not None else E.case(0, 1))
    o.fields["__v__"] = v
    return o
