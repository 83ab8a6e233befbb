"""Encodings: write, read back, compare tables; independent parser/packer."""
import tempfile
from bounded.lib import *
from bounded.c15 import table, build, sane
from IO import TM_Record as R
import IO, io_pb2, string
from Macro import Turing_Machine as T

def big(rng):
    ns, nk = rng.choice([(1, 1), (1, 2), (2, 2), (3, 3), (7, 7), (7, 2), (2, 7), (8, 2), (2, 8), (8, 8), (7, 8), (8, 7), (10, 3), (3, 9), (24, 2), (25, 2), (26, 2), (30, 2), (2, 10), (2, 12), (5, 2), (6, 6), (4, 9), (24, 9)])
    return tuple(tuple(r) for r in random_table_n(rng, ns, nk))
def random_table_n(rng, ns, nk):
    p = rng.choice([0, .1, .5, .9])
    return [[None if rng.random() < p else ((rng.randrange(nk), rng.choice([1, -1]), -1) if rng.random() < .2 else (rng.randrange(nk), rng.choice([1, -1]), rng.randrange(ns))) for _ in range(nk)] for _ in range(ns)]
def text(tab):
    return "_".join("".join("---" if t is None else "%d%s%s" % (t[0], "R" if t[1] == 1 else "L", "Z" if t[2] == -1 else string.ascii_uppercase[t[2]]) for t in row) for row in tab)
def packed(tab):
    out = []
    for row in tab:
        for j, t in enumerate(row):
            b = 128 if j == 0 else 0
            if t is not None: b += (t[0] + 1) + 8 * (t[2] + 1) + (64 if t[1] == 1 else 0)
            out.append(b)
    return bytes(out)
def refuse(f):
    """result of f, or None if it refuses loudly"""
    try: return f()
    except (AssertionError, ValueError, IndexError, TypeError, NotImplementedError): return None
def one(ctx):
    rng, rep = ctx.rng, ctx.rep; C = rep.check
    tab = big(rng) if rng.random() < .7 else tuple(tuple(r) for r in live_table(rng)); tm = build(tab); ns, nk = len(tab), len(tab[0]); d = dict(machine=text(tab) if ns < 27 and nk < 11 else repr(tab))
    snap = lambda: C(table(tm) == tab and sane(tm) and all(t.symbol_out == 1 for r in tm.trans_table for t in r if t.condition == T.UNDEFINED), "writing a machine changed it", **d)
    # text
    s = tm.ttable_str()
    if ns < 25 and nk < 10:
        C(s == text(tab), "standard text differs", got=s, **d)
        back = R.parse_tm(s); C(table(back) == tab and sane(back), "text does not read back the same machine", got=repr(table(back)), **d)
        back = R.parse_tm(text(tab).replace("Z", "Z") + rng.choice(["", "\n", "\r\n"])); C(table(back) == tab, "text with line end does not read back", **d)
        C(table(IO.get_tm(s)) == tab, "get_tm of a literal machine differs", **d)
        hz = [c for c in "HYZ" if ord(c) - 65 >= ns]
        if hz: C(table(R.parse_tm(text(tab).replace("Z", rng.choice(hz)))) == tab, "other halting letters read wrongly", **d)
    else: C(s == "" or s == text(tab), "text of a machine too big for the format", got=s, **d)
    snap()
    # packed
    p = refuse(lambda: R.pack_tm(tm))
    if ns <= 7 and nk <= 7: C(p == packed(tab), "packed bytes differ from the documented layout", got=repr(p), **d)
    if p is not None:
        b = refuse(lambda: R.unpack_tm(p)); C(b is not None and table(b) == tab and sane(b), "packed encoding does not read back the same machine", got=repr(b and table(b)), **d)
    snap()
    # list
    l = io_pb2.TMList()
    if rng.random() < .3: R.tm_to_list(build(random_table_n(rng, 2, 2)), l)
    R.tm_to_list(tm, l); b = R.tm_from_list(l)
    C(table(b) == tab and sane(b), "list encoding does not read back the same machine", got=repr(table(b)), **d); snap()
    # record
    pt = io_pb2.TuringMachine()
    if rng.random() < .3: R.write_tm(build(random_table_n(rng, *rng.choice([(2, 2), (9, 2)]))), pt)
    R.write_tm(tm, pt); pt2 = io_pb2.TuringMachine(); pt2.ParseFromString(pt.SerializeToString()); b = R.read_tm(pt2)
    C(table(b) == tab and sane(b), "record does not give back the same machine", got=repr(table(b)), **d); snap()
    if ns < 25 and nk < 10:
        pt = io_pb2.TuringMachine(); pt.ttable_str = text(tab); C(table(R.read_tm(pt)) == tab, "text record read wrongly", **d)
    # a machine with a stay move is outside the packed format: refuse or keep
    if rng.random() < .1 and ns <= 7 and nk <= 7:
        q, k = rng.randrange(ns), rng.randrange(nk)
        if tab[q][k] is not None:
            tm.trans_table[q][k].dir_out = T.STAY; want = table(tm)
            p = refuse(lambda: R.pack_tm(tm))
            if p is not None: C(table(R.unpack_tm(p)) == want, "packed encoding silently changed a stay move", **d)
            s = refuse(lambda: tm.ttable_str()); b = refuse(lambda: R.parse_tm(s)) if s else None
            if b is not None: C(table(b) == want, "text silently changed a stay move", **d)
    rep.case(tab)
def bits(ctx):
    C = ctx.rep.check
    for sy in range(-3, 12):
        for st in range(-3, 12):
            for dr in (0, 1, 2, 3):
                for nr in (False, True):
                    b = refuse(lambda: R.pack_trans_ints(sy, dr, st, nr))
                    inside = -1 <= sy < 7 and -1 <= st < 7 and dr in (0, 1)
                    if inside: C(b is not None, "packing refused a supported transition", args=[sy, dr, st, nr])
                    if b is not None: C(tuple(R.unpack_trans_ints(b)) == (sy, dr, st, nr), "packed transition does not unpack to itself", args=[sy, dr, st, nr])
    for b in range(256):
        sy, dr, st, nr = R.unpack_trans_ints(b)
        if sy < 7 and st < 7: C(refuse(lambda: R.pack_trans_ints(sy, dr, st, nr)) == b, "byte does not re-pack to itself", byte=b)
def run(ctx):
    bits(ctx)
    while ctx.time_left() and not ctx.rep.violations: one(ctx)
