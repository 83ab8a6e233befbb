"""Compressed tape against an unrolled reference tape."""
from bounded.lib import *
import math
from Macro import Tape as T
class Opt: html_format = False; full_reps = False
def canon(t, d):
    """maximal runs of half d, nearest first, without the infinite blank"""
    out = []
    for b in reversed(t.tape[d][1:]):
        if out and out[-1][0] == b.symbol: out[-1][1] += b.num
        else: out.append([b.symbol, b.num])
    while out and out[-1][0] == t.tape[d][0].symbol: out.pop()
    return out
class RefTape:
    """independent canonical run-length tape: h[d] lists [symbol, count], last = nearest the head"""
    def __init__(self, blank, d): self.blank = blank; self.d = d; self.h = [[], []]; self.extra = [0, 0]
    def top(self, d): return self.h[d][-1][0] if self.h[d] else self.blank
    def pop(self, d, n=1):
        if not self.h[d]: return
        self.h[d][-1][1] -= n
        if self.h[d][-1][1] == 0: self.h[d].pop()
    def push(self, d, s, n=1):
        if not self.h[d]:
            if s != self.blank: self.h[d].append([s, n])
        elif self.h[d][-1][0] == s: self.h[d][-1][1] += n
        else: self.h[d].append([s, n])
    def move(self, s, nd, n=1): self.pop(self.d, n); self.push(1 - nd, s, n); self.d = nd
    def run(self): return self.h[self.d][-1][1] if self.h[self.d] else math.inf
    def copy(self):
        r = RefTape(self.blank, self.d); r.h = [[list(y) for y in x] for x in self.h]; return r

def compare(rep, t, r, ops, ctx):
    if not rep.check(t.dir == r.d, "head direction differs", ops=ops): return False
    for d in (0, 1):
        bs = t.tape[d]
        if not rep.check(len(bs) >= 1 and bs[0].num == math.inf and bs[0].symbol == r.blank and all(b.num != math.inf and b.num >= 1 for b in bs[1:]), "malformed half tape (zero/negative/misplaced infinite block)", ops=ops, half=repr([(b.symbol, str(b.num)) for b in bs])): return False
        c = canon(t, d); w = [list(x) for x in reversed(r.h[d])]
        if not rep.check(c == w, "tape contents differ in half %d" % d, ops=ops, got=str(c[:80]), want=str(w[:80])): return False
    if not rep.check(t.get_top_symbol() == r.top(r.d), "get_top_symbol differs", ops=ops): return False
    if not rep.check(t.get_top_block() is t.tape[t.dir][-1], "get_top_block is not the block at the head", ops=ops): return False
    for ev in (lambda s: 0 if s == r.blank else 1, lambda s: 0 if s == r.blank else 3 * s + 2):
        got = t.get_nonzeros(ev, 5); want = 5 + sum(ev(s) * n for h in r.h for s, n in h)
        if not rep.check(got == want, "get_nonzeros differs", ops=ops, got=str(got), want=str(want)): return False
    return True

def one(rep, blank, d0, ops, ctx=None):
    t = T.Chain_Tape(); t.init(blank, d0, Opt()); ts = [(t, RefTape(blank, d0))]
    for k, op in enumerate(ops):
        t, r = ts[op[1] % len(ts)]
        if op[0] == "single": t.apply_single_move(op[2], op[3]); r.move(op[2], op[3])
        elif op[0] == "chain":
            n = r.run()
            # blocks need not be maximal: accept any non-empty prefix of the run
            got = t.apply_chain_move(op[2])
            if got == math.inf:
                if not rep.check(n == math.inf, "chain move claims an infinite run ahead", ops=ops[:k + 1], blank=blank, d0=d0): return
            else:
                if not rep.check(1 <= got <= n, "chain move replaced a wrong number of symbols", got=str(got), run=str(n), ops=ops[:k + 1], blank=blank, d0=d0): return
                if r.h[r.d]: r.move(op[2], r.d, got)
                else: r.push(1 - r.d, op[2], got)
        elif op[0] == "copy" and len(ts) < 5:
            c = t.copy(); ts.append((c, r.copy()))
            if not rep.check(c == t and c.options is t.options, "copy is not equal to the original", ops=ops[:k + 1]): return
        elif op[0] == "big":
            if len(t.tape[t.dir]) > 1:   # grow a block, as the accelerated prover does
                t.tape[t.dir][-1].num += op[2]; r.push(r.d, t.get_top_symbol(), op[2])
    for t, r in ts:
        if not compare(rep, t, r, ops, ctx): return
    rep.case((blank, d0, ops), nontrivial=len(ops) > 2)

def run(ctx):
    rng, rep = ctx.rng, ctx.rep
    for i in range(6000 if not ctx.thorough else 60000):
        if not ctx.time_left() or rep.violations: break
        blank = rng.choice([0, 0, 0, 1]); ops = []; ns = rng.choice([2, 2, 3])
        long = i % 40 == 3; n = rng.randrange(60, 1500) if long else rng.randrange(1, 25); bias = rng.randrange(2); nt = 5 if not long else 2
        for _ in range(n):
            k = rng.choice(["single"] * 4 + ["chain"] * 3 + ["copy", "big"]) if not long else rng.choice(["single"] * 40 + ["chain", "copy", "big"])
            if k == "single": ops.append([k, rng.randrange(nt), rng.randrange(ns), (bias if rng.random() < .9 else 1 - bias) if long else rng.randrange(2)])
            elif k == "chain": ops.append([k, rng.randrange(nt), rng.randrange(ns)])
            elif k == "copy": ops.append([k, rng.randrange(nt)])
            else: ops.append([k, rng.randrange(nt), rng.choice([1, 2, 3, 5, rng.randrange(10**6), rng.randrange(2**80)])])
        one(rep, blank, rng.randrange(2), ops)
def replay(rep, d):
    v = d["violation"]["data"]
    if "ops" in v: one(rep, v.get("blank", 0), v.get("d0", 0), v["ops"])
