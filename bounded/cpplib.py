"""Builds /repo's C++ sources in a scratch directory and talks to the driver."""
import os, glob, re, subprocess, tempfile, shutil, atexit
from bounded.lib import *
SRC = os.path.join(REPO, "cpp", "src"); D = {}
def prepare():
    """called once, before the workers are forked"""
    d = tempfile.mkdtemp(prefix="verifcpp"); pid = os.getpid(); atexit.register(lambda: os.getpid() == pid and shutil.rmtree(d, ignore_errors=True)); D["dir"] = d
    libs, mains = [], []
    for f in sorted(glob.glob(os.path.join(SRC, "*.cpp"))): (mains if re.search(r"\bint\s+main\s*\(", open(f).read()) else libs).append(f)
    fl = ["g++", "-std=c++17", "-O1", "-w", "-D_GLIBCXX_ASSERTIONS", "-I", SRC]; jobs = {}
    for f in libs + mains + [os.path.join(os.path.dirname(os.path.abspath(__file__)), "driver.cpp")]:
        o = os.path.join(d, os.path.basename(f)[:-4] + ".o"); jobs[f] = (o, subprocess.Popen(fl + ["-c", f, "-o", o], stderr=subprocess.PIPE, text=True))
    err = {f: p.communicate()[1] for f, (o, p) in jobs.items()}; bad = {f for f, (o, p) in jobs.items() if p.returncode}
    if any(f in bad for f in libs): raise Exception("does not compile: " + "".join(err[f] for f in libs if f in bad)[-2000:])
    ps = {}
    for f, (o, p) in jobs.items():
        if f in libs or f in bad: continue
        x = o[:-2]; ps[os.path.basename(x)] = subprocess.Popen(["g++", o] + [jobs[l][0] for l in libs] + ["-o", x], stderr=subprocess.PIPE, text=True)
    for n, p in ps.items():
        if p.communicate() and p.returncode == 0: D[n] = os.path.join(d, n)
    D["missing"] = [os.path.basename(f) for f in bad]
class Crash(Exception): pass
class Driver:
    def __init__(s):
        if "driver" not in D: raise Exception("the driver does not compile against this tree: " + repr(D.get("missing")))
        s.p = None
    def ask(s, q, multi=False):
        if s.p is None or s.p.poll() is not None: s.p = subprocess.Popen([D["driver"]], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        out = []
        try:
            s.p.stdin.write(q + "\n"); s.p.stdin.flush()
            while True:
                l = s.p.stdout.readline()
                if not l: raise Crash("the compiled program ended abnormally")
                l = l.rstrip("\n")
                if not multi: return l
                if l == "end": return out
                out.append(l)
        except BrokenPipeError: s.p = None; raise Crash("the compiled program ended abnormally")
def exe(rep, name, *args, ok=True):
    """run one of the repository's programs; None if it cannot be built here"""
    if name not in D: rep.notes.append("%s does not build here" % name); return None
    r = subprocess.run([D[name]] + [str(a) for a in args], capture_output=True, text=True, timeout=240)
    if ok and r.returncode: raise Crash("%s %s exited with %d: %s" % (name, " ".join(map(str, args)), r.returncode, r.stderr[-300:]))
    return r
# ---------------------------------------------------------------- machines
def text(tab): return "_".join("".join("---" if c is None else "%d%s%s" % (c[0], "R" if c[1] == 1 else "L", "Z" if c[2] < 0 else chr(65 + c[2])) for c in row) for row in tab)
def rand_tab(rng, ns, nk, und=.2, halt=.05):
    return [[None if rng.random() < und else (rng.randrange(nk), rng.choice([1, -1]), -1 if rng.random() < halt else rng.randrange(ns)) for s in range(nk)] for q in range(ns)]
def sweeper(rng, ns, nk):
    """mostly running machines that move far"""
    t = rand_tab(rng, ns, nk, .05, 0)
    if rng.random() < .6:
        d = rng.choice([1, -1]); t[0][0] = (rng.randrange(1, nk) if nk > 1 else 0, d, rng.choice([0, min(1, ns - 1)]))
        if ns > 1 and rng.random() < .7: t[1][0] = (rng.randrange(nk), rng.choice([d, d, -d]), rng.randrange(2))
    return t
class Hist:
    """full history of a run"""
    def __init__(s, tab, n):
        r = Ref(tab); s.st, s.pos, s.wr = [0], [0], []
        while r.steps < n and not r.halted: c = r.pos; r.step(); s.wr.append((c, r.tape[c])); s.st.append(r.state); s.pos.append(r.pos)
        s.r = r; s.halted = r.halted; s.steps = r.steps
    def tape(s, n):
        t = {}
        for c, w in s.wr[:n]: t[c] = w
        return t
def recur_ok(tab, start, period, offset):
    """is it true that from `start` on the run repeats every `period` steps, moved by `offset`?"""
    if period <= 0: return "period is not positive"
    h = Hist(tab, start + period)
    if h.halted: return "the machine halts at step %d" % h.steps
    if h.st[start] != h.st[start + period]: return "states differ after one period"
    if h.pos[start + period] - h.pos[start] != offset: return "the head moves by %d" % (h.pos[start + period] - h.pos[start])
    lo, hi = min(h.pos[start:start + period + 1]), max(h.pos[start:start + period + 1]); a, b = h.tape(start), h.tape(start + period)
    cells = set(a) | {c - offset for c in b} | set(range(lo, hi + 1)); 
    if offset > 0: cells = [c for c in cells if c >= lo]
    elif offset < 0: cells = [c for c in cells if c <= hi]
    else: cells = range(lo, hi + 1)
    for c in cells:
        if a.get(c, 0) != b.get(c + offset, 0): return "the tape differs at cell %d" % c
    return None
def book(tab):
    ns, nk = len(tab), len(tab[0]); dec = [c for r in tab for c in r if c is not None]
    return "%s/%d/%d/%d/%d/%d/%d" % (text(tab), ns, nk, min(ns - 1, max([0] + [c[2] for c in dec]) + 1), min(nk - 1, max([0] + [c[0] for c in dec]) + 1), bool(dec), sum(c is None or c[2] < 0 for r in tab for c in r))
def kids(tab, q, s, allow):
    dec = [c for r in tab for c in r if c is not None]; nh = sum(c is None or c[2] < 0 for r in tab for c in r)
    if not (allow or nh > 1): return []
    out = []
    for n in range(min(len(tab) - 1, max([0] + [c[2] for c in dec]) + 1) + 1):
        for w in range(min(len(tab[0]) - 1, max([0] + [c[0] for c in dec]) + 1) + 1):
            for d in ([1, -1] if dec else [1]): t = [list(r) for r in tab]; t[q][s] = (w, d, n); out.append(t)
    return out
