"""Record files: write, read back by streaming, skipping, index; cut files."""
import tempfile, random, gzip
from pathlib import Path
from bounded.lib import *
from bounded.c15 import table, build
from bounded.c17 import random_table_n, text
from bounded.c20 import rnd_int
from IO.TM_Record import TM_Record
from IO.Common import RecordLocateError
import IO, io_pb2, Halting_Lib as HL, TM_Enum
from Exp_Int import exp_int

def fill(rng, msg, depth=0):
    """random contents for any message"""
    for f in msg.DESCRIPTOR.fields:
        if rng.random() < .6: continue
        if f.name in ("ttable_packed", "ttable_list", "ttable_str", "exp_int_pickle", "hex_str", "exp_int", "exp_int_str", "uint_old"): continue
        rp = f.is_repeated if hasattr(f, "is_repeated") else f.label == f.LABEL_REPEATED
        try:
            if f.message_type is not None and f.message_type.name == "BigInt" and not rp: HL.set_big_int(getattr(msg, f.name), rng.choice([rnd_int(rng), rnd_int(rng), 3 + exp_int(2, exp_int(2, 2000 + rng.randrange(99)))]))
            elif f.message_type is not None:
                if depth < 4 and not rp: fill(rng, getattr(msg, f.name), depth + 1); getattr(msg, f.name).SetInParent()
            elif rp: pass
            elif f.cpp_type == f.CPPTYPE_BOOL: setattr(msg, f.name, rng.random() < .5)
            elif f.cpp_type == f.CPPTYPE_STRING: setattr(msg, f.name, "x" * rng.randrange(4) if f.type == f.TYPE_STRING else b"y" * rng.randrange(300))
            elif f.cpp_type in (f.CPPTYPE_FLOAT, f.CPPTYPE_DOUBLE): setattr(msg, f.name, float(rng.randrange(99)))
            elif f.cpp_type == f.CPPTYPE_ENUM: setattr(msg, f.name, rng.choice(list(f.enum_type.values_by_number)))
            else: setattr(msg, f.name, rng.choice([0, 1, 5, rng.randrange(1000)]))
        except (TypeError, ValueError): pass
def record(rng):
    ns, nk = rng.choice([(2, 2), (2, 2), (3, 2), (5, 2), (2, 4), (7, 7), (8, 2), (2, 9), (9, 9)]); tab = tuple(tuple(r) for r in random_table_n(rng, ns, nk))
    allow = rng.random() < .3; r = TM_Record(tm_enum=TM_Enum.TM_Enum(build(tab), allow_no_halt=allow))
    if rng.random() < .7: fill(rng, r.proto.status)
    if rng.random() < .3: fill(rng, r.proto.filter)
    return tab, allow, r
def key(r): return (r.proto.SerializeToString(deterministic=True), table(r.tm()), bool(r.tm_enum().allow_no_halt))
def drain(rd):
    """records until the end or an explicit error"""
    out = []
    try:
        for r in rd: out.append(r)
    except (IO.Proto.IO_Error, EOFError): pass
    return out
def proto_file(ctx, tmp):
    rng, rep = ctx.rng, ctx.rep; C = rep.check
    n = rng.choice([0, 1, 2, 3, 8, 20]); recs = [record(rng) for _ in range(n)]; want = [(r.proto.SerializeToString(deterministic=True), t, a) for t, a, r in recs]; d = dict(records=n)
    suf = rng.choice([".pb", ".pb", ".pb.gz"]); f = Path(tmp) / ("r" + suf); mk = rng.choice([IO.Proto.Writer, IO.Writer])
    with mk(rng.choice([f, str(f)])) as w:
        for t, a, r in recs:
            w.write_record(r)
            if rng.random() < .2: w.flush()
    for (t, a, r), k in zip(recs, want): C(r.proto.SerializeToString(deterministic=True) == k[0], "writing a record changed it", **d)
    with IO.Reader(rng.choice([f, str(f)])) as rd: got = list(rd)
    C([key(r) for r in got] == want, "records read back differ", file=suf, got=len(got), **d)
    # skipping
    with IO.Proto.Reader(f) as rd:
        exp, res = [], []
        i = 0
        while i < n:
            if rng.random() < .5: C(rd.skip_record() is True, "skip_record denies a record that is there", at=i, **d)
            else: r = rd.read_record(); exp.append(want[i]); res.append(key(r) if r else None)
            i += 1
        C(res == exp, "records read after skipping differ", **d)
        C(rd.skip_record() is False if rng.random() < .5 else rd.read_record() is None, "end of file not recognised", **d)
    # by index
    for i in ([rng.randrange(n)] if n else []) + [n, n + 1]:
        try: k = key(IO.Proto.load_record(f, i))
        except RecordLocateError: k = None
        C(k == (want[i] if i < n else None), "record loaded by index differs", index=i, **d)
        if i < n: C(table(IO.load_tm(f, i)) == want[i][1] and table(IO.get_tm("%s:%d" % (f, i))) == want[i][1], "machine loaded by index differs", index=i, **d)
    # cut
    if suf == ".pb" and n:
        data = f.read_bytes(); ends = []; p = 0
        for k in want:
            p += 4 + int.from_bytes(data[p:p + 4], "little"); ends.append(p)
        C(p == len(data), "file is longer than its records", **d)
        cuts = set([rng.randrange(len(data) + 1) for _ in range(6)] + [e + x for e in rng.sample(ends, min(2, n)) for x in (-1, 0, 1, 3, 4, 5)])
        g = Path(tmp) / "cut.pb"
        for c in cuts:
            if not 0 <= c <= len(data): continue
            g.write_bytes(data[:c]); whole = sum(e <= c for e in ends)
            with IO.Proto.Reader(g) as rd: got = drain(rd)
            C([key(r) for r in got] == want[:whole], "cut file: complete records before the cut are not exactly those read", cut=c, got=len(got), complete=whole, **d)
            i = rng.randrange(n)
            try: k = key(IO.Proto.load_record(g, i))
            except (RecordLocateError, IO.Proto.IO_Error): k = None
            C(k == (want[i] if i < whole else None), "cut file: record by index", cut=c, index=i, **d)
    rep.case(("proto", suf, [w[0] for w in want]), nontrivial=n > 0)
def text_file(ctx, tmp):
    rng, rep = ctx.rng, ctx.rep; C = rep.check; import io
    n = rng.choice([0, 1, 2, 5, 12]); recs = []
    while len(recs) < n:
        r = record(rng)
        if len(r[0]) < 25 and len(r[0][0]) < 10: recs.append(r)
    for _, _, r in recs:
        r.proto.ClearField("status")
        if rng.random() < .5: HL.set_halting(r.proto.status, rnd_int(rng), rnd_int(rng), 0, 0)
    want = [t for t, _, _ in recs]; d = dict(records=n, machines=[text(t) for t in want][:5])
    suf = rng.choice([".txt", ".txt", ".txt.gz", ".std"]); f = Path(tmp) / ("t" + suf)
    with IO.Writer(rng.choice([f, str(f)])) as w:
        for t, _, r in recs:
            if rng.random() < .7: w.write_record(r)
            else: w.write_tm(r.tm())
    with IO.Reader(f) as rd: got = [table(r.tm()) for r in rd]
    C(got == want, "machines read back from text differ", file=suf, got=len(got), **d)
    with IO.StdText.Reader(f) as rd:
        exp, res = [], []
        for i in range(n):
            if rng.random() < .5: C(rd.skip_record(), "text skip_record denies a record", **d)
            else: exp.append(want[i]); res.append(table(rd.read_record().tm()))
        C(res == exp, "text records after skipping differ", **d); C(not rd.skip_record(), "text: end of file not recognised", **d)
    for i in ([rng.randrange(n)] if n else []) + [n]:
        try: k = table(IO.StdText.load_record(f, i).tm())
        except RecordLocateError: k = None
        C(k == (want[i] if i < n else None), "text record by index differs", index=i, **d)
    if rng.random() < .1:
        s = io.StringIO()
        try: IO.StdText.Writer(s).write_tm(build(random_table_n(rng, 26, 2))); ok = False
        except ValueError: ok = True
        C(ok or s.getvalue().strip() != "", "a machine too big for text was silently dropped")
    rep.case(("text", suf, want), nontrivial=n > 0)
def ints(ctx):
    rng, rep = ctx.rng, ctx.rep
    f = io_pb2.BigInt()
    if rng.random() < .3: HL.set_big_int(f, rnd_int(rng))
    v = rng.choice([rnd_int(rng), -rnd_int(rng), 2**63 + rng.randrange(-2, 3), -2**63 + rng.randrange(-2, 3), 10**rng.randrange(1, 300) * rng.choice([1, -1]), 7**9999])
    try: HL.set_big_int(f, v)
    except ValueError: rep.check(v < 0, "big integer refused", value=str(hex(v))[:80]); return
    g = io_pb2.BigInt(); g.ParseFromString(f.SerializeToString())
    rep.check(HL.get_big_int(g) == v, "big integer changed in storage", value=hex(v)[:80], got=repr(HL.get_big_int(g))[:80] if abs(v) < 2**200 else "?")
    rep.case(("int", v))
    if rng.random() < .2:
        x = rng.choice([1, -3]) * exp_int(rng.choice([2, 3, 6]), rng.randrange(3, 60)) + rng.randrange(-5, 5)
        if not isinstance(x, int):
            HL.set_big_int(f, x); g.ParseFromString(f.SerializeToString()); y = HL.get_big_int(g)
            rep.check(y.__class__ is x.__class__ and str(y) == str(x) and int(y) == int(x) if hasattr(x, "__int__") else str(y) == str(x), "tower integer changed in storage", value=str(x))
def raw(rng):
    """a record of a chosen size, the empty one included"""
    p = io_pb2.TMRecord(); k = rng.choice([0, 0, 1, 3, 200, 255, 256, 1000, 65531, 65536, 70000, 131072, 200001])
    if k: p.tm.ttable_str = rng.choice("01") * k
    return p
def sizes(ctx, tmp):
    """streaming, skipping and index over records of very different sizes"""
    rng, rep = ctx.rng, ctx.rep; C = rep.check; n = rng.randrange(1, 9); recs = [raw(rng) for _ in range(n)]; f = Path(tmp) / rng.choice(["s.pb", "s.pb.gz"]); d = dict(sizes=[p.ByteSize() for p in recs], file=f.name)
    with IO.Proto.Writer(f) as w:
        for p in recs: w.write_record(TM_Record(proto=p))
    with IO.Proto.Reader(f) as rd: got = [r.proto for r in rd]
    C(got == recs, "records read back differ", got=[p.ByteSize() for p in got], **d)
    for i in range(n):
        try: ok = IO.Proto.load_record(f, i).proto == recs[i]
        except RecordLocateError: ok = False
        C(ok, "record loaded by index differs", index=i, **d)
    with IO.Proto.Reader(f) as rd:
        for i in range(n):
            if rng.random() < .6: C(rd.skip_record() is True, "skip_record denies a record that is there", at=i, **d)
            else: r = rd.read_record(); C(r is not None and r.proto == recs[i], "record read after skipping differs", at=i, **d)
        C(rd.read_record() is None, "end of file not recognised", **d)
    rep.case(("sizes", tuple(d["sizes"])), nontrivial=True)
def huge(ctx):
    rng, rep = ctx.rng, ctx.rep; f = io_pb2.BigInt()
    for n in (1000, 4300, 5001, 70000, 300001, 400000):
        v = rng.choice([1, -1]) * (16**n + rng.randrange(16**20)); HL.set_big_int(f, v); g = io_pb2.BigInt(); g.ParseFromString(f.SerializeToString())
        rep.check(HL.get_big_int(g) == v, "big integer changed in storage", hex_digits=n, negative=v < 0); rep.case(("huge", n, v < 0), nontrivial=True)
def run(ctx):
    with tempfile.TemporaryDirectory() as tmp:
        huge(ctx)
        for _ in range(4): sizes(ctx, tmp)
        while ctx.time_left() and not ctx.rep.violations:
            proto_file(ctx, tmp); sizes(ctx, tmp); text_file(ctx, tmp)
            for _ in range(10): ints(ctx)
