"""Contracts of the record files (C18): length-delimited protobuf framing
(IO/Proto.py) and the one-line text format (IO/StdText.py).

A file of records is a byte stream in which record k starts at OFF(k) and
OFF(k+1) = OFF(k) + 4 + PLEN(k); `size` is where the file ends (anywhere: a
file that was cut is covered)."""
from .ttable import *
from . import codec
PM = "IO.Proto"; SM = "IO.StdText"; RM = "IO.TM_Record"
OFF = z3.Function("OFF", I, I); PLEN = z3.Function("PLEN", I, I)
def framed(k): return And(PLEN(k) >= 0, OFF(k + 1) == OFF(k) + 4 + PLEN(k))

def out_attr(E, o, name):
    if name == "write":
        def f(E, x): E.setfield(o, "chunks", o.fields["chunks"] + [x])
        return f
    if name == "flush": return lambda E: None
    raise Unsupported("outfile." + name)
def spack(E, fmt, n): return Obj(E, "Len4", {"n": zi(n), "fmt": fmt})
class WriteRecord(Contract):
    """appends exactly one frame: the message length in 4 bytes, then the message"""
    module = PM; qualname = "Writer.write_record"; params = ["self", "tm_record"]
    def args(self, E):
        out = Obj(E, "OutFile", {"chunks": []}); n = E.int("len"); E.assume([n >= 0, n < 2 ** 32]); pb = Obj(E, "Ser", {"n": n}); E.ghost["pb"] = pb
        return NS(self=E.new(PM, "Writer", outfilename=Opaque("f"), outfile=out), tm_record=E.new(RM, "TM_Record", proto=Obj(E, "Msg", {"ser": pb}), tme=None))
    def modifies(self, E, a): return [(a.self.fields["outfile"], "chunks")]
    def post(self, E, old, a, r):
        # concatenation of what was written
        flat = []
        for c in a.self.fields["outfile"].fields["chunks"]: flat += c.fields["parts"] if isinstance(c, Obj) and c.cls == "Cat" else [c]
        ok = len(flat) == 2 and isinstance(flat[0], Obj) and flat[0].cls == "Len4" and flat[1] is E.ghost["pb"]
        return [("length then message", ok)] + ([("the length is the message's", flat[0].fields["n"] == E.ghost["pb"].fields["n"]), ("4 bytes, little endian", flat[0].fields["fmt"] in ("<L", "<I"))] if ok else [])
def mk_file(E, cut=True):
    n, sz = E.int("nrec"), E.int("size"); E.assume([n >= 0, OFF(0) == 0, sz <= OFF(n), sz >= 0] if cut else [n >= 0, OFF(0) == 0, sz == OFF(n)])
    f = Obj(E, "InFile", {"pos": E.int("pos"), "size": sz, "n": n}); E.ghost["file"] = f; return f
def in_attr(E, o, name):
    F = o.fields
    if name == "read":
        def f(E, m=None):
            m = zi(m); left = F["size"] - F["pos"]; left = Ite(left < 0, 0, left); k = Ite(m < left, m, left); b = Obj(E, "Bytes", {"start": F["pos"], "n": k}); E.setfield(o, "pos", F["pos"] + k); return b
        return f
    if name == "seek":
        def f(E, d, whence=0):
            if whence != 1: raise Unsupported("seek")
            E.setfield(o, "pos", F["pos"] + zi(d)); return F["pos"]
        return f
    if name == "tell": return lambda E: F["pos"]
    raise Unsupported("infile." + name)
def sunpack(E, fmt, b):
    E.prove("length is read as 4 bytes little endian", And(fmt in ("<L", "<I"), b.fields["n"] == 4)); k = E.ghost["k"]
    E.prove("length is read at the start of the record", b.fields["start"] == OFF(k)); return (PLEN(k),)
class ReadRecord(Contract):
    """at record k: the message of record k; at the end: None; cut: an error"""
    module = PM; qualname = "Reader.read_record"; params = ["self"]
    def args(self, E):
        f = mk_file(E); k = E.int("k"); E.assume([k >= 0, k <= f.fields["n"], f.fields["pos"] == OFF(k), f.fields["size"] >= OFF(k), framed(k), Implies(k == f.fields["n"], f.fields["size"] == OFF(k))]); E.ghost["k"] = k
        return NS(self=E.new(PM, "Reader", infilename=Opaque("f"), infile=f))
    def modifies(self, E, a): return [(E.ghost["file"], "pos")]
    def post(self, E, old, a, r):
        f = E.ghost["file"].fields; k = E.ghost["k"]
        if r is None: return [("nothing only at the end of the file", f["size"] == OFF(k)), ("position", f["pos"] == OFF(k))]
        ok = isinstance(r, Obj) and isinstance(r.fields.get("proto"), Obj) and r.fields["proto"].fields.get("parsed") is not None
        if not ok: return [("a record", False)]
        b = r.fields["proto"].fields["parsed"].fields
        return [("exactly the bytes of record k", And(b["start"] == OFF(k) + 4, b["n"] == PLEN(k), f["size"] >= OFF(k + 1))), ("position after record k", f["pos"] == OFF(k + 1)), ("machine decoded from the message", r.fields.get("tme", 1) is None)]
    def raises(self, E, old, a, ex):
        f = E.ghost["file"].fields; k = E.ghost["k"]; return [("fails only on a cut record", And(ex.kind == "IO_Error", f["size"] > OFF(k), f["size"] < OFF(k + 1)))]
    def apply_call(self, E, f, argv):
        F = argv[0].fields["infile"]; fl = F.fields; k = E.ghost["cur"](E); E.prove("call read_record: at the start of a record", And(fl["pos"] == OFF(k), k >= 0, k <= fl["n"]))
        if E.branch(k == fl["n"]): return None
        E.assume(framed(k)); E.setfield(F, "pos", OFF(k + 1)); E.ghost["took"](E, k); return Obj(E, "Rec", {"k": k})
class SkipRecord(ReadRecord):
    """moves past record k; says whether there was one"""
    qualname = "Reader.skip_record"
    def post(self, E, old, a, r):
        f = E.ghost["file"].fields; k = E.ghost["k"]; full = f["size"] >= OFF(k + 1); end = f["size"] == OFF(k)
        return [("moves past the record", Implies(full, And(f["pos"] == OFF(k + 1), zb(E.truth(r))))), ("end of file", Implies(end, And(f["pos"] == OFF(k), Not(zb(E.truth(r))))))]
    def apply_call(self, E, f, argv):
        F = argv[0].fields["infile"]; fl = F.fields; k = E.ghost["cur"](E); E.prove("call skip_record: at the start of a record", And(fl["pos"] == OFF(k), k >= 0, k <= fl["n"]))
        if E.branch(k == fl["n"]): return False
        E.assume(framed(k)); E.setfield(F, "pos", OFF(k + 1)); E.ghost["took"](E, k); return True
def counter(E):
    c = Obj(E, "Ctr", {"k": z3.IntVal(0), "y": z3.IntVal(0)}); E.ghost["c"] = c; E.ghost["cur"] = lambda E: c.fields["k"]; E.ghost["took"] = lambda E, k: E.setfield(c, "k", k + 1)
class IterRecords(Contract):
    """yields every record once, in order"""
    module = PM; qualname = "Reader.__iter__"; params = ["self"]
    def args(self, E):
        f = mk_file(E, cut=False); counter(E); E.assume(f.fields["pos"] == 0); E.ghost["on_yield"] = self.on_yield
        return NS(self=E.new(self.module, "Reader", infilename=Opaque("f"), infile=f))
    def modifies(self, E, a): return [(E.ghost["file"], "pos"), (E.ghost["c"], None)]
    def on_yield(self, E, v):
        c = E.ghost["c"]; E.prove("records are yielded in order", zi(v.fields["k"]) == c.fields["y"] if isinstance(v, Obj) and v.cls == "Rec" else False); E.setfield(c, "y", c.fields["y"] + 1)
    def loops(self):
        def recs(env): return [v for v in env.fr.locals.values() if isinstance(v, Obj) and v.cls == "Rec"]
        def inv(E, env):
            c = E.ghost["c"].fields; f = E.ghost["file"].fields; base = [("position", And(f["pos"] == OFF(c["k"]), 0 <= c["k"], c["k"] <= f["n"]))]
            rs = recs(env)
            if rs: return base + [("one record ahead", And(zi(rs[0].fields["k"]) == c["y"], c["k"] == c["y"] + 1))]
            if E.ghost.get("ahead"): return base + [("all yielded", And(c["y"] == c["k"], c["k"] == f["n"]))]
            return base + [("all yielded", c["y"] == c["k"])]
        def pre(E, env): E.ghost["ahead"] = any(n in env.fr.locals and (env.fr.locals[n] is None or recs(env)) for n in env.fr.locals if n != "self")
        def hl(E, fr, n):
            v = fr.locals[n]
            if v is None or isinstance(v, Obj) and v.cls == "Rec": return Obj(E, "Rec", {"k": E.int("rk")}) if E.choose(2) == 0 else None
            return MISSING
        return [Loop("records", inv, pre=pre, havoc_local=hl)]
    def post(self, E, old, a, r): return [("every record was yielded", E.ghost["c"].fields["y"] == E.ghost["file"].fields["n"])]
class LoadRecord(Contract):
    """record number record_num, or RecordLocateError"""
    module = PM; qualname = "load_record"; params = ["filename", "record_num"]
    def args(self, E):
        f = mk_file(E, cut=False); counter(E); E.assume(f.fields["pos"] == 0); rd = E.new(self.module, "Reader", infilename=Opaque("f"), infile=f); rd.meta["ctx"] = True; E.ghost["rd"] = rd
        n = E.int("record_num"); E.assume(n >= 0); return NS(filename=Opaque("f"), record_num=n)
    def modifies(self, E, a): return [(E.ghost["file"], "pos"), (E.ghost["c"], None)]
    def loops(self):
        def inv(E, env):
            c = E.ghost["c"].fields; f = E.ghost["file"].fields; k = zi(env.extra["k"]); return [("skipped so far", And(f["pos"] == OFF(c["k"]), c["k"] == Ite(k < f["n"], k, f["n"])))]
        return [Loop("skip", inv)]
    def post(self, E, old, a, r): return [("the record with that number", zi(r.fields["k"]) == a.record_num if isinstance(r, Obj) and r.cls == "Rec" else False)]
    def raises(self, E, old, a, ex): return [("fails only for a number past the end", And(ex.kind == "RecordLocateError", a.record_num >= E.ghost["file"].fields["n"]))]

# ---- one machine per line ----------------------------------------------------------
class TWriteTtable(Contract):
    module = SM; qualname = "Writer._write_ttable"; params = ["self", "tm"]; inline = True
    def args(self, E): return NS(self=E.new(SM, "Writer", outfilename=Opaque("f"), outfile=Obj(E, "OutFile", {"chunks": []})), tm=mk_tm(E))
    def modifies(self, E, a): return [(a.self.fields["outfile"], "chunks")]
    def fits(self, tm): return And(zi(tm.fields["num_states"]) < 25, zi(tm.fields["num_symbols"]) < 10)
    def post(self, E, old, a, r):
        ch = a.self.fields["outfile"].fields["chunks"]; return [("writes the text of the machine", self.fits(a.tm) if len(ch) == 1 and isinstance(ch[0], Obj) and ch[0].cls == "Line" and ch[0].fields["table"] is a.tm.fields["trans_table"] else False)]
    def raises(self, E, old, a, ex): return [("refuses only machines the format cannot hold, writing nothing", And(ex.kind == "ValueError", Not(self.fits(a.tm)), not a.self.fields["outfile"].fields["chunks"]))]
class TWriteTM(TWriteTtable):
    qualname = "Writer.write_tm"; inline = False
    def post(self, E, old, a, r):
        ch = a.self.fields["outfile"].fields["chunks"]; return [("one line with the text of the machine", self.fits(a.tm) if len(ch) == 2 and isinstance(ch[0], Obj) and ch[0].cls == "Line" and ch[0].fields["table"] is a.tm.fields["trans_table"] and ch[1] == "\n" else False)]
class TWriteRecord(Contract):
    """one line: the machine's text, then for a halting machine its steps and score"""
    module = SM; qualname = "Writer.write_record"; params = ["self", "tm_record"]
    def args(self, E):
        tm = mk_tm(E); te = E.new("TM_Enum", "TM_Enum", tm=tm, allow_no_halt=E.bool("a")); hs = Obj(E, "PB", {"is_halting": E.bool("h"), "halt_steps": Obj(E, "Big", {"n": "steps"}), "halt_score": Obj(E, "Big", {"n": "score"})}); E.ghost["tm"] = tm
        rec = E.new(RM, "TM_Record", proto=Obj(E, "PB", {"status": Obj(E, "PB", {"halt_status": hs})}), tme=te); E.ghost["h"] = hs
        return NS(self=E.new(SM, "Writer", outfilename=Opaque("f"), outfile=Obj(E, "OutFile", {"chunks": []})), tm_record=rec)
    def modifies(self, E, a): return [(a.self.fields["outfile"], "chunks")]
    def post(self, E, old, a, r):
        ch = a.self.fields["outfile"].fields["chunks"]; T = E.ghost["tm"].fields["trans_table"]; h = zb(E.ghost["h"].fields["is_halting"])
        ok = len(ch) in (2, 3) and isinstance(ch[0], Obj) and ch[0].cls == "Line" and ch[0].fields["table"] is T and ch[-1] == "\n" and (len(ch) == 2 or isinstance(ch[1], (Opaque, str)))
        return [("one line starting with the machine's text", ok)] + ([("steps and score exactly for halting machines", h == (len(ch) == 3))] if ok else [])
    def raises(self, E, old, a, ex): tm = E.ghost["tm"]; return [("refuses only machines the format cannot hold, writing nothing", And(ex.kind == "ValueError", Not(And(zi(tm.fields["num_states"]) < 25, zi(tm.fields["num_symbols"]) < 10)), not a.self.fields["outfile"].fields["chunks"]))]
class TReadRecord(Contract):
    """the machine of the next line; None at the end"""
    module = SM; qualname = "Reader.read_record"; params = ["self"]
    def args(self, E):
        tm = mk_tm(E); E.assume([zi(tm.fields["num_states"]) < 25, zi(tm.fields["num_symbols"]) < 10]); E.ghost["tm"] = tm; more = E.case(True, False); E.ghost["more"] = more
        return NS(self=E.new(SM, "Reader", infilename=Opaque("f"), infile=Obj(E, "Lines", {"more": more, "read": 0, "T": tm.fields["trans_table"]})))
    def modifies(self, E, a): return [(a.self.fields["infile"], "read")]
    def post(self, E, old, a, r):
        n = a.self.fields["infile"].fields["read"]
        if r is None: return [("nothing only at the end", And(not E.ghost["more"], n == 1))]
        tm = E.ghost["tm"]; u = r.fields["tme"].fields["tm"] if isinstance(r, Obj) and isinstance(r.fields.get("tme"), Obj) else None
        if u is None: return [("a record with its machine", False)]
        return [("one line was read", And(n == 1, E.ghost["more"]))] + [("same machine: " + l, c) for l, c in codec.same_machine((tab_of(tm), tm.fields["num_states"], tm.fields["num_symbols"]), u)]
def lines_attr(E, o, name):
    if name == "readline":
        def f(E):
            E.setfield(o, "read", o.fields["read"] + 1); return Obj(E, "TLine", {"T": o.fields["T"]}) if o.fields["more"] else ""
        return f
    raise Unsupported("infile." + name)
def tline_attr(E, o, name):
    if name in ("strip", "rstrip"): return lambda E, *a: o
    if name == "split":
        def f(E, *a):
            if a not in ((), (" ",)): raise Unsupported("split%r" % (a,))
            T = o.fields["T"]; return PyList(E, [Obj(E, "Line", {"table": T, "n": T.fields["ns"]}), Opaque("rest")])
        return f
    raise Unsupported("line." + name)
class TSkip(TReadRecord):
    qualname = "Reader.skip_record"
    def post(self, E, old, a, r): return [("one line is skipped and whether there was one is told", And(a.self.fields["infile"].fields["read"] == 1, E.truth(r) == E.ghost["more"]))]
class GetBig(Contract):
    module = "Halting_Lib"; qualname = "get_big_int"; params = ["x"]; assumed = True; why = "verified for C20"
    def apply_call(self, E, f, argv): return Opaque("int")
class BigStr(Contract):
    module = "Halting_Lib"; qualname = "big_int_approx_str"; params = ["x"]; assumed = True; why = "text of a number (display)"
    def apply_call(self, E, f, argv): return Opaque("str")
class RecInit(Contract):
    module = RM; qualname = "TM_Record.update_tm"; params = ["self", "tm_enum"]; assumed = True; why = "verified for C17"
    def apply_call(self, E, f, argv): E.setfield(argv[0], "tme", argv[1])
def new_reader(E, c, args, kw): return E.ghost["rd"]
def ser_cat(E, op, a, b):
    p = lambda x: x.fields["parts"] if isinstance(x, Obj) and x.cls == "Cat" else [x]
    return Obj(E, "Cat", {"parts": p(a) + p(b)})
EXTS = dict(codec.EXTS)
def new_msg(E):
    m = Obj(E, "Msg", {"ser": None}); return m
def msg_attr(E, o, name):
    if name == "SerializeToString": return lambda E: o.fields["ser"]
    if name == "ParseFromString": return lambda E, b: E.setfield(o, "parsed", b)
    return MISSING
EXTS.update({("OutFile", "attr"): out_attr, ("InFile", "attr"): in_attr, ("Msg", "attr"): msg_attr, ("external", "struct.pack"): spack, ("external", "struct.unpack"): sunpack, ("external", "io_pb2.TMRecord"): new_msg,
             ("Ser", "len"): lambda E, o: o.fields["n"], ("Bytes", "len"): lambda E, o: o.fields["n"], ("Bytes", "truth"): lambda E, o: o.fields["n"] != 0, ("binop", "Len4"): ser_cat, ("binop", "Ser"): ser_cat, ("binop", "Cat"): ser_cat,
             ("Lines", "attr"): lines_attr, ("TLine", "attr"): tline_attr, ("TLine", "truth"): lambda E, o: True, ("TLine", "eq"): lambda E, a, b: False, ("Line", "truth"): lambda E, o: True})
LoadRecord.exts = {("new", "Reader"): new_reader}
CONTRACTS = [WriteRecord(), ReadRecord(), SkipRecord(), IterRecords(), LoadRecord(), TWriteTtable(), TWriteTM(), TWriteRecord(), TReadRecord(), TSkip(), GetBig(), BigStr(), RecInit()]
import copy as _c
for _x in codec.CONTRACTS:
    if _x.qualname in ("Simple_Machine.ttable_str", "parse_tm"):
        _x = _c.copy(_x); _x.assumed = True; _x.why = "verified for C17"; CONTRACTS.append(_x)
