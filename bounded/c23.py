"""The compiled C++ enumerators and text format against a reference."""
from bounded.cpplib import *
from bounded.c22 import judge, rng_tail
import bounded.cpplib as CL
from collections import Counter
def prepare(): CL.prepare()
def mix(t, seed):
    h = seed
    for c in t: h = (h * 1000003 + ord(c)) % 2147483647
    return h
def tree_case(rep, dr, tab, fresh, allow, seed, one, limit=2500):
    t = text(tab); ns, nk = len(tab), len(tab[0]); kw = dict(kind="E", tm=t, fresh=fresh, allow=allow, seed=seed, one=one)
    want, todo, first = Counter(), [tab], True
    while todo:
        m = todo.pop(); want[book(m)] += 1
        if sum(want.values()) > limit: return
        und = [(q, s) for q in range(ns) for s in range(nk) if m[q][s] is None]; h = mix(text(m), seed)
        if und and (first or h % one == 0): q, s = und[(h // 7) % len(und)]; todo += kids(m, q, s, allow)
        first = False
    try: got = Counter(l[2:] for l in dr.ask("E %d %d %d %s %d %d %d %d" % (fresh, ns, nk, t, allow, seed, one, 10 ** 6), multi=True))
    except Crash as ex: rep.fail("enumerating: %s" % ex, **kw); return
    if got != want:
        x, m = list((got - want).items())[:3], list((want - got).items())[:3]; rep.fail("enumeration is not exactly the children of tree normal form (machine/states/symbols/next state/next symbol/left ok/halts): too many %r, missing %r" % (x, m), **kw); return
    rep.case((t, allow, seed, one), sum(want.values()) > 1); rep.count("machines enumerated", sum(want.values()))
def text_case(rep, dr, tabs):
    d = tempfile.mkdtemp(dir=D["dir"]); f = os.path.join(d, "in.txt"); ts = [text(t) for t in tabs]; kw = dict(kind="R", tms=ts)
    try:
        open(f, "w").write("".join(t + rng_tail(i + len(ts[0])) + "\n" for i, t in enumerate(ts))); got = dr.ask("R %s %d" % (f, len(ts))).split(" "); w = ["%s#%s" % (book(t), text(t)) for t in tabs]
        if got != [str(len(w))] + w + w: rep.fail("machines read from text are not the machines written", got=got[:6], want=w[:3], **kw)
    except Crash as ex: rep.fail("reading: %s" % ex, **kw)
    finally: shutil.rmtree(d, ignore_errors=True)
    rep.case(tuple(ts)); rep.count("texts", len(ts))
def lr_case(rep, ns, nk, n, allow, only, start=None):
    """lr_enum (start None) or lr_enum_continue from a file"""
    d = tempfile.mkdtemp(dir=D["dir"]); P = lambda x: os.path.join(d, x); kw = dict(kind="LR", ns=ns, nk=nk, n=n, allow=allow, only=only, start=start); b = lambda x: "true" if x else "false"
    try:
        if start is None:
            root = [[None] * nk for _ in range(ns)]; root[0][0] = (1, 1, 1); roots = [root]; r = exe(rep, "lr_enum", ns, nk, n, P("h"), P("i"), P("u"), b(allow), "false", b(only))
        else: open(P("in"), "w").write("".join(t + rng_tail(k) + "\n" for k, t in enumerate(start))); roots = [parse(t) for t in start]; r = exe(rep, "lr_enum_continue", P("in"), n, P("h"), P("i"), P("u"), "7", b(allow), "false", b(only))
        if r is None: return
        H, I, U = [open(P(x)).read().splitlines() for x in "hiu"]; seen = {}
        if only: 
            if H or I: rep.fail("decided machines written although only unknown ones were asked for", **kw); return
            if start is None and exe(rep, "lr_enum", ns, nk, n, P("h2"), P("i2"), P("u2"), b(allow), "false", "false") and sorted(open(P("u2")).read().splitlines()) != sorted(U): rep.fail("unknown machines differ from those written without the option", **kw); return
        for l in H:
            m = re.fullmatch(r"(\S+) \| Halt (\d+)", l)
            if not m: rep.fail("line %r" % l, **kw); return
            seen.setdefault(m.group(1), []).append(("h", int(m.group(2))))
        for l in I:
            m = re.fullmatch(r"(\S+) \| Lin_Recur (\d+) (-?\d+) <(\d+)", l)
            if not m: rep.fail("line %r" % l, **kw); return
            seen.setdefault(m.group(1), []).append(("i", int(m.group(2)), int(m.group(3)), int(m.group(4))))
        for l in U: seen.setdefault(l, []).append(("u",))
        todo = list(roots); cnt = Counter(); exp = Counter(); nh = nt = 0
        while todo:
            m = todo.pop(); t = text(m); nt += 1; HI = Hist(m, max(n, 1)); halted = HI.halted
            s = seen.get(t)
            if only:
                # a machine may be decided as halting beyond the budget
                if s and HI.halted: rep.fail("%s halts at step %d and is listed as unknown" % (t, HI.steps), **kw); return
                if not s and not HI.halted: HI = Hist(m, 2 * n + 2); halted = HI.halted
            else:
                exp[t] += 1
                if not s: rep.fail("%s is not in any output" % t, **kw); return
                k = s[0]
                if k[0] == "h":
                    HI = Hist(m, max(n, k[1], 1)); halted = HI.halted
                    if not HI.halted or HI.steps != k[1]: rep.fail("%s does not halt at step %d" % (t, k[1]), **kw); return
                elif HI.halted: rep.fail("%s halts at step %d" % (t, HI.steps), **kw); return
                elif k[0] == "i":
                    e = recur_ok(m, k[3], k[1], k[2])
                    if e: rep.fail("%s: %r: %s" % (t, k, e), **kw); return
            if halted:
                q = HI.st[HI.steps - 1]; y = HI.tape(HI.steps - 1).get(HI.pos[HI.steps - 1], 0); nh += 1
                if m[q][y] is None: todo += kids(m, q, y, allow)
        if not only:
            got = Counter({t: len(v) for t, v in seen.items()})
            if got != exp: rep.fail("machines written: too many %r, missing %r" % (list((got - exp).items())[:3], list((exp - got).items())[:3]), **kw); return
            c = re.findall(r"Final.*Total: (\d+)\s+Halt: (\d+)\s+Infinite: (\d+)\s+Unknown: (\d+)", r.stdout)
            if c and tuple(map(int, c[-1])) != (nt, len(H), len(I), len(U)): rep.fail("counts %r, written %r" % (c[-1], (nt, len(H), len(I), len(U))), **kw)
        rep.count("machines written by lr_enum", nt); rep.case((ns, nk, n, allow, only, tuple(start or [])))
    except Crash as ex: rep.fail(str(ex), **kw)
    finally: shutil.rmtree(d, ignore_errors=True)
def lb_case(rep, ns, nk, n, start=None):
    d = tempfile.mkdtemp(dir=D["dir"]); P = lambda x: os.path.join(d, x); kw = dict(kind="LB", ns=ns, nk=nk, n=n)
    try:
        r = exe(rep, "lb_enum", ns, nk, n, P("w"), P("n"))
        if r is None: return
        W, N = [open(P(x)).read().splitlines() for x in "wn"]; todo = [[[None] * nk for _ in range(ns)]]; real = {}; non = Counter(); nt = nh = 0
        while todo:
            m = todo.pop(); nt += 1; H = Hist(m, n)
            if H.halted: real.setdefault(H.steps, set()).add(text(m)); nh += 1; q = H.st[H.steps - 1]; y = H.tape(H.steps - 1).get(H.pos[H.steps - 1], 0); todo += kids(m, q, y, False)
            else: non[text(m)] += 1
        w = [l.split("\t") for l in W]
        if sorted(int(x[0]) for x in w) != sorted(real): rep.fail("step counts realised: %r, should be %r" % (sorted(int(x[0]) for x in w)[:40], sorted(real)[:40]), **kw); return
        for s, t in w:
            if t not in real[int(s)]: rep.fail("witness %s does not halt at step %s" % (t, s), **kw); return
        if Counter(N) != non: rep.fail("machines that do not halt: %d written, should be %d" % (len(N), sum(non.values())), **kw); return
        lb = 1
        while lb in real: lb += 1
        m = re.search(r"LB\(\d+, \d+\) = (\d+)", r.stdout)
        if (int(m.group(1)) if m else None) != (lb if lb < n else None): rep.fail("lazy beaver value %r, should be %r" % (m and m.group(1), lb), **kw)
        c = re.findall(r"# TMs (simulated|halted) = (\d+)", r.stdout)
        if c and (int(c[0][1]), int(c[1][1])) != (nt, nh): rep.fail("counts %r, should be %r" % (c, (nt, nh)), **kw)
        rep.count("machines enumerated by lb_enum", nt); rep.case((ns, nk, n))
    except Crash as ex: rep.fail(str(ex), **kw)
    finally: shutil.rmtree(d, ignore_errors=True)
def new_case(rep, dr, ns, nk):
    tab = [[None] * nk for _ in range(ns)]; w = book(tab)
    try: g = dr.ask("N %d %d" % (ns, nk))
    except Crash as ex: g = str(ex)
    rep.check(g == w, "blank machine: %s, should be %s" % (g, w), kind="N", ns=ns, nk=nk); rep.case(("N", ns, nk))
def run(ctx):
    rng, rep = ctx.rng, ctx.rep; dr = Driver(); i = 0
    fixed = [lambda ns=ns, nk=nk: new_case(rep, dr, ns, nk) for ns in range(1, 27) for nk in range(1, 11)]
    fixed += [lambda n=n, a=a, o=o: lr_case(rep, 2, 2, n, a, o) for n in (1, 2, 3, 8, 60) for a in (0, 1) for o in (0, 1)] + [lambda: lr_case(rep, 2, 3, 20, 0, 0), lambda: lr_case(rep, 3, 2, 12, 0, 0), lambda: lr_case(rep, 3, 2, 12, 0, 1)]
    fixed += [lambda ns=ns, nk=nk, n=n: lb_case(rep, ns, nk, n) for ns, nk, n in ((1, 2, 5), (2, 2, 3), (2, 2, 30), (1, 3, 10), (1, 4, 10))]
    fixed += [lambda ns=ns, nk=nk, a=a: tree_case(rep, dr, [[None] * nk for _ in range(ns)], 1, a, 3, 1 if ns * nk < 5 else 3) for ns in (1, 2, 3, 4) for nk in (1, 2, 3, 4) for a in (0, 1)]
    for f in fixed:
        if ctx.mine(i): f()
        i += 1
    while ctx.time_left() and not rep.violations:
        x = rng.random(); ns, nk = rng.randrange(1, 6), rng.randrange(1, 6)
        if x < .5:
            tab = rand_tab(rng, ns, nk, rng.choice([.3, .6, .9, 1]), rng.choice([0, .05, .4]))
            if x < .1: tab = [[(rng.choice([0, 0, 1]) % nk, 1, rng.choice([0, -1])) if rng.random() < .2 else None for _ in range(nk)] for _ in range(ns)]
            tree_case(rep, dr, tab, 0, rng.randrange(2), rng.randrange(1 << 30), rng.choice([2, 5, 20, 10 ** 9]))
        elif x < .97: text_case(rep, dr, [rand_tab(rng, rng.choice([1, 2, 3, 5, 25, 24]), rng.choice([1, 2, 3, 9]), rng.choice([0, .3, 1]), rng.choice([0, .2, 1])) for _ in range(rng.randrange(1, 5))])
        else:
            st = [text(rand_tab(rng, 2, 2, .5, 0)) for _ in range(rng.randrange(1, 4))]
            st = list(dict.fromkeys(st)); lr_case(rep, 2, 2, rng.choice([1, 3, 20]), rng.randrange(2), 0, st) if disjoint(st) else None
def disjoint(st):
    """no machine below two of the roots (the comparison wants every machine once)"""
    c = [parse(t) for t in st]
    for i in range(len(c)):
        for j in range(len(c)):
            if i != j and all(a is None or b is None or a == b for r, s in zip(c[i], c[j]) for a, b in zip(r, s)): return False
    return True
def replay(rep, d):
    prepare(); v = d["violation"]["data"]; dr = Driver() if "driver" in D else None; k = v["kind"]
    if k == "E": tree_case(rep, dr, parse(v["tm"]), v["fresh"], v["allow"], v["seed"], v["one"])
    elif k == "R": text_case(rep, dr, [parse(t) for t in v["tms"]])
    elif k == "LR": lr_case(rep, v["ns"], v["nk"], v["n"], v["allow"], v["only"], v["start"])
    elif k == "LB": lb_case(rep, v["ns"], v["nk"], v["n"])
    else: new_case(rep, dr, v["ns"], v["nk"])
