"""The compiled C++ simulator and Lin-recurrence detector against a reference run."""
from bounded.cpplib import *
import bounded.cpplib as CL
CHAMPS = ["1RB1LB_1LA1RZ", "1RB1LC_1RC1RB_1RD0LE_1LA1LD_1RZ0LA", "1RB1LB_1LA0LC_1RZ1LD_1RD0RA", "1RB2LA1RA_1LC0RB---_1RA---0LB", "1RB0RB_1LC1RB_---0LC", "0RB0LA_1LA1RB", "1RB---_1LB0LA"]
def prepare(): CL.prepare()
def sim_case(rep, dr, tab, ops):
    t = text(tab); q = "S %s %s" % (t, " ".join(ops))
    try: got = dr.ask(q)
    except Crash as ex: rep.fail("simulating: %s" % ex, kind="S", tm=t, ops=ops); return
    r = Ref(tab); outs = [x for x in got.split(";") if x.strip()]; k = 0; last = ("x", "x")
    def step():
        nonlocal last
        if not r.halted: last = (r.state, r.tape.get(r.pos, 0)); r.step()
    for o in ops:
        if o == "s": step()
        elif o[0] == "k":
            while not r.halted and r.steps < int(o[1:]): step()
        else:
            R = int(o[1:]); want = "%d %d %d %d %s %s %d 1 %s 1" % (r.state if not r.halted else -1, r.steps, r.pos, r.halted, last[0], last[1], r.tape.get(r.pos, 0), "".join(str(r.tape.get(p, 0)) for p in range(-R, R + 1)))
            g = outs[k].strip() if k < len(outs) else "nothing"; k += 1
            if g != want: rep.fail("C++ simulator differs from the machine", kind="S", tm=t, ops=ops, got=g[:300], want=want[:300]); return
    rep.case((t, tuple(ops)), r.steps > 1); rep.count("steps compared", r.steps)
def lin_case(rep, dr, tab, n):
    t = text(tab)
    try: g = [int(x) for x in dr.ask("L %s %d" % (t, n)).split()]
    except Crash as ex: rep.fail("Lin-recurrence detection: %s" % ex, kind="L", tm=t, max_steps=n); return
    judge(rep, tab, n, g, kind="L", tm=t, max_steps=n); rep.case((t, n), g[8] > 1); rep.count("halted" if g[0] else "recurrent" if g[1] else "unknown")
def judge(rep, tab, n, g, **kw):
    h, l, st, pe, of, ls, ly, ref, steps = g; H = Hist(tab, max(steps, n, 1)); kw["got"] = g
    if h and l: return rep.fail("reported as halting and recurrent", **kw)
    if h:
        if not H.halted or H.steps != steps: return rep.fail("reported as halting at step %d; the machine %s" % (steps, "halts at %d" % H.steps if H.halted else "does not"), **kw)
        a = H.tape(steps - 1).get(H.pos[steps - 1], 0)
        if (ls, ly) != (H.st[steps - 1], a): return rep.fail("last state and symbol (%d, %d), should be (%d, %d)" % (ls, ly, H.st[steps - 1], a), **kw)
    elif H.halted: return rep.fail("halts at step %d (budget %d) but reported as not halting" % (H.steps, n), **kw)
    elif l:
        e = recur_ok(tab, st, pe, of)
        if e: return rep.fail("recurrence start %d, period %d, offset %d is not true: %s" % (st, pe, of, e), **kw)
        if steps != st + pe: return rep.fail("steps run %d, recurrence seen at %d" % (steps, st + pe), **kw)
    elif steps < n: return rep.fail("gave up after %d of %d steps" % (steps, n), **kw)
    if not 0 <= ref <= steps: return rep.fail("reference step %d of %d" % (ref, steps), **kw)
def prog_case(rep, tabs, n, p):
    """the programs direct_sim, direct_sim_all and lin_recur on a file of machines"""
    d = tempfile.mkdtemp(dir=D["dir"]); f = os.path.join(d, "in.txt"); o = os.path.join(d, "out.txt"); kw = dict(kind="P", tms=[text(t) for t in tabs], steps=n, p=p)
    open(f, "w").write("".join(text(t) + rng_tail(i) + "\n" for i, t in enumerate(tabs)))
    try:
        r = exe(rep, "direct_sim_all", f, n, o)
        if r is not None:
            ls = open(o).read().splitlines()
            if len(ls) != len(tabs): rep.fail("direct_sim_all wrote %d lines for %d machines" % (len(ls), len(tabs)), **kw)
            for t, l in zip(tabs, ls):
                H = Hist(t, n); w = "%s %s %d" % (text(t), "Halt" if H.halted else "Unknown", H.steps)
                if l != w: rep.fail("direct_sim_all: %r, should be %r" % (l, w), **kw)
            k = sum(Hist(t, n).halted for t in tabs); w = re.findall(r"Total: (\d+)\s+Halt: (\d+)\s+Unknown: (\d+)", r.stdout)
            if w and tuple(map(int, w[0])) != (len(tabs), k, len(tabs) - k): rep.fail("direct_sim_all counts %r" % (w[0],), **kw)
        i = p % len(tabs); t = tabs[i]; r = exe(rep, "direct_sim", f, i + 1, n)
        if r is not None:
            H = Hist(t, n); m = re.search(r"Halted at step (\d+)", r.stdout); s = re.search(r"Simulated (\d+)", r.stdout)
            if (int(m.group(1)) if m else None) != (H.steps if H.halted else None) or (s and int(s.group(1)) != H.steps): rep.fail("direct_sim: %r" % r.stdout[-200:], **kw)
        b = p % 9; r = exe(rep, "lin_recur_main", f, i + 1, b)
        if r is not None:
            v = dict(re.findall(r"(\w+): (-?\d+)", r.stdout)); g = [int(v.get(x, 0)) for x in ("is_halted", "is_lin_recurrent", "start_step", "period", "offset", "last_state", "last_symbol", "max_ref_config_step", "steps_run")]; judge(rep, t, 1 << b, g, **kw)
    except Crash as ex: rep.fail(str(ex), **kw)
    finally: shutil.rmtree(d, ignore_errors=True)
    rep.case((tuple(map(text, tabs)), n, p)); rep.count("program runs")
def rng_tail(i): return ["", " 12 34", "\t#x", ", 3", " | Halt 7", "|5"][i % 6]
def rand_ops(rng, far):
    ops, n = [], 0
    for _ in range(rng.randrange(1, 7)):
        x = rng.random()
        if x < .3: ops += ["s"] * rng.randrange(1, 4)
        else: n = rng.choice([n, n + rng.randrange(5), n + rng.randrange(60), n + rng.randrange(far)]); ops.append("k%d" % n)
        if rng.random() < .6: ops.append("r%d" % rng.choice([3, 20, 60, 130]))
    return ops + ["r%d" % rng.choice([20, 160, 420])]
def translated(ctx):
    """does the text the proofs are about compute what the compiled program computes?"""
    from cppfront import runtime
    try: g = runtime.load(REPO)
    except Exception as ex: ctx.rep.notes.append("translation not run: %r" % ex); return
    rng = random.Random(5); dr = Driver(); n = 0
    for _ in range(400 if ctx.thorough else 80):
        t = text(sweeper(rng, rng.randrange(1, 5), rng.randrange(1, 4))); m = rng.choice([0, 1, 2, 5, 30, 100, 400])
        try: tm = g["ReadTuringMachine__istream_string"](runtime.Stream(t), runtime.Str("")); r = g["LinRecurDetect"](tm, m); a = [r.is_halted, r.is_lin_recurrent, r.lr_start_step, r.lr_period, r.lr_offset, r.last_state, r.last_symbol, r.max_ref_config_step, r.steps_run]
        except Exception as ex: ctx.rep.notes.append("translation not run: %r" % ex); return
        b = [int(x) for x in dr.ask("L %s %d" % (t, m)).split()]
        if [int(x) for x in a] != b: ctx.rep.notes.append("TRANSLATION DIFFERS on %s %d: %r %r" % (t, m, a, b)); return
        n += 1
    ctx.rep.count("translated text agrees with the compiled program", n)
def run(ctx):
    rng, rep = ctx.rng, ctx.rep; dr = Driver(); i = 0
    if ctx.worker == 0: translated(ctx)
    for t in CHAMPS:
        for n in (0, 1, 2, 3, 7, 50, 200):
            if ctx.mine(i): lin_case(rep, dr, parse(t), n); sim_case(rep, dr, parse(t), ["r5", "s", "r5", "k%d" % n, "r40", "s", "s", "r40"])
            i += 1
    far = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "far.txt")).read().split()          # machines that leave the first hundred cells, at both ends
    for t in far:
        if ctx.mine(i): lin_case(rep, dr, parse(t), 6000); sim_case(rep, dr, parse(t), sum([["k%d" % k, "r130"] for k in (900, 2500, 2600, 4000, 4001, 6000)], []))
        i += 1
    while ctx.time_left() and not rep.violations:
        ns, nk = rng.randrange(1, 6), rng.randrange(1, 5); tab = sweeper(rng, ns, nk) if rng.random() < .7 else rand_tab(rng, ns, nk); x = rng.random()
        if rng.random() < .02: t = parse(rng.choice(far)); sim_case(rep, dr, t, rand_ops(rng, 6000))
        if nk == 1 and any(c is None for r in tab for c in r): continue
        if x < .45: lin_case(rep, dr, tab, rng.choice([0, 1, 2, 3, 4, 10, 40, 200, 900]))
        elif x < .95: sim_case(rep, dr, tab, rand_ops(rng, rng.choice([100, 400, 1500])))
        else: prog_case(rep, [tab] + [sweeper(rng, ns, max(nk, 2)) for _ in range(rng.randrange(6))], rng.choice([0, 1, 5, 100, 700]), rng.randrange(1000))
def replay(rep, d):
    prepare(); v = d["violation"]["data"]; dr = Driver() if "driver" in D else None
    if v["kind"] == "S": sim_case(rep, dr, parse(v["tm"]), v["ops"])
    elif v["kind"] == "L": lin_case(rep, dr, parse(v["tm"]), v["max_steps"])
    else: prog_case(rep, [parse(t) for t in v["tms"]], v["steps"], v["p"])
