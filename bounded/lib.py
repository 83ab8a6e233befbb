"""Shared code of the bounded stand-ins and counterexample searches.

They run the real code of /repo under its own interpreter and compare it with
small independent reference implementations.  Deterministic for a given seed
apart from wall-clock cut-offs.
"""
import os, sys, time, random, json, hashlib, multiprocessing as mp, traceback
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(REPO, "Code"))


class Violation(Exception):
    def __init__(self, what, **data):
        Exception.__init__(self, what)
        self.what, self.data = what, data


class Report:
    def __init__(self):
        self.evals = 0; self.distinct = set(); self.samples = []; self.violations = []; self.counts = {}; self.notes = []
    def case(self, key, nontrivial=True):
        self.evals += 1
        if nontrivial:
            h = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
            if h not in self.distinct:
                self.distinct.add(h)
                if len(self.samples) < 4: self.samples.append(repr(key)[:300])
    def count(self, name, n=1): self.counts[name] = self.counts.get(name, 0) + n
    def fail(self, what, **data):
        if len(self.violations) < 20:
            self.violations.append(dict(what=what, data={k: (v if isinstance(v, (int, float, str, list, dict, bool, type(None))) else repr(v)) for k, v in data.items()}))
    def check(self, cond, what, **data):
        if not cond: self.fail(what, **data)
        return cond


class Ctx:
    def __init__(self, rep, rng, deadline, tier, worker, workers, known):
        self.rep, self.rng, self.deadline, self.tier, self.worker, self.workers, self.known = rep, rng, deadline, tier, worker, workers, known
    def time_left(self): return time.time() < self.deadline
    def mine(self, i): return i % self.workers == self.worker
    @property
    def thorough(self): return self.tier != "quick"


class Hang(BaseException): pass


def _work(a):
    modname, w, W, seed, budget, tier, known = a
    import importlib, signal, resource
    rep = Report(); m = None; cpu = int(budget) + 60
    # a call that does not come back within this much CPU time never ends, as far as a user is concerned (cases take seconds at most)
    def hang(*_): raise Hang()
    signal.signal(signal.SIGVTALRM, hang); signal.setitimer(signal.ITIMER_VIRTUAL, cpu)
    try: resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    except Exception: pass
    try:
        sys.setrecursionlimit(10000)
        m = importlib.import_module("bounded." + modname)
        rng = random.Random("%s/%d/%d" % (modname, seed, w))
        ctx = Ctx(rep, rng, time.time() + budget, tier, w, W, known)
        m.run(ctx)
    except Exception as ex:
        fr = traceback.extract_tb(ex.__traceback__)
        if fr and os.path.realpath(fr[-1].filename).startswith(os.path.realpath(REPO) + os.sep) and getattr(m, "RAISES_ARE_VIOLATIONS", True):
            # the code under test raised on an input for which it has to give an answer
            rep.fail("unexpected %s raised by the code: %s" % (type(ex).__name__, ex), traceback=traceback.format_exc()[-1500:])
        else: return dict(error=traceback.format_exc())
    except Hang as ex:
        fr = [f for f in traceback.extract_tb(ex.__traceback__) if os.path.realpath(f.filename).startswith(os.path.realpath(REPO) + os.sep)]
        if fr: rep.fail("a call into the code does not end (%d s of CPU time)" % cpu, where="%s:%d %s" % (os.path.basename(fr[0].filename), fr[0].lineno, fr[0].name), traceback=traceback.format_exc()[-1500:])
        else: return dict(error=traceback.format_exc())
    finally: signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    return dict(evals=rep.evals, distinct=[h.hex() for h in list(rep.distinct)[:200000]], samples=rep.samples, violations=rep.violations, counts=rep.counts, notes=rep.notes)


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("module"); ap.add_argument("--seed", type=int, default=1); ap.add_argument("--budget", type=float, default=30)
    ap.add_argument("--tier", default="quick"); ap.add_argument("--out"); ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("--replay")
    a = ap.parse_args()
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    if a.replay:
        import importlib
        m = importlib.import_module("bounded." + a.module)
        d = json.load(open(a.replay))
        print(json.dumps(d, indent=1)); rep = Report()
        if hasattr(m, "replay"): m.replay(rep, d); print(json.dumps(rep.violations, indent=1)); sys.exit(1 if rep.violations else 0)
        return
    known = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")))
    known = [k for k in known if k.get("status") == "known"]
    import importlib
    if a.module in ("c22", "c23"):
        m = importlib.import_module("bounded." + a.module); m.prepare()
    jobs = [(a.module, w, a.workers, a.seed, a.budget, a.tier, known) for w in range(a.workers)]
    with mp.get_context("fork").Pool(a.workers, maxtasksperchild=1) as p: rs = p.map(_work, jobs, chunksize=1)
    out = dict(evals=0, distinct=0, samples=[], violations=[], counts={}, notes=[], errors=[])
    ds = set()
    for r in rs:
        if "error" in r: out["errors"].append(r["error"]); continue
        out["evals"] += r["evals"]; ds.update(r["distinct"])
        out["samples"] += r["samples"][:1]; out["violations"] += r["violations"]; out["notes"] += r["notes"]
        for k, v in r["counts"].items(): out["counts"][k] = out["counts"].get(k, 0) + v
    out["distinct"] = len(ds); out["notes"] = sorted(set(out["notes"]))
    s = json.dumps(out, indent=1)
    if a.out: open(a.out, "w").write(s)
    else:
        out["violations"] = out["violations"][:5]
        print(json.dumps(out, indent=1)[:6000])


# ---------------------------------------------------------------- reference machine
class Ref:
    """Independent reference Turing machine.  table[state][symbol] =
    (write, dir(+1/-1), next) or None (undefined: acts as 1R halt)."""
    def __init__(self, table, start=0):
        self.table = table; self.state = start; self.pos = 0; self.tape = {}; self.steps = 0; self.halted = False
        self.last_seen = {}; self.halt_from = None; self.undefined = False
    def step(self):
        s = self.tape.get(self.pos, 0)
        t = self.table[self.state][s]
        self.last_seen[self.state] = self.steps
        if t is None: t = (1, 1, -1); self.undefined = True
        w, d, n = t
        if n == -1: self.halted = True; self.halt_from = (self.state, s)
        self.tape[self.pos] = w; self.pos += d; self.state = n; self.steps += 1
    def run(self, n):
        while self.steps < n and not self.halted: self.step()
        return self
    def score(self): return sum(1 for v in self.tape.values() if v != 0)


def parse(text):
    """Independent parser of the standard notation."""
    tab = []
    for row in text.split("_"):
        r = []
        for i in range(0, len(row), 3):
            c = row[i:i + 3]
            if c[0] == "-": r.append(None)
            else:
                st = ord(c[2]) - 65
                r.append((int(c[0]), 1 if c[1] == "R" else -1, st if c[2] not in "ZH" or st < len(text.split("_")) else -1))
        tab.append(r)
    return tab

def show(tab):
    out = []
    for row in tab:
        r = ""
        for t in row:
            if t is None: r += "---"
            else: r += "%d%s%s" % (t[0], "R" if t[1] == 1 else "L", "Z" if t[2] == -1 else chr(65 + t[2]))
        out.append(r)
    return "_".join(out)

def random_table(rng, ns=None, nk=None, halt_p=0.12, undef_p=0.08):
    ns = ns or rng.choice([2, 2, 3, 3, 4, 5]); nk = nk or rng.choice([2, 2, 2, 3, 4])
    tab = []
    for i in range(ns):
        row = []
        for j in range(nk):
            x = rng.random()
            if x < undef_p: row.append(None)
            elif x < undef_p + halt_p: row.append((rng.randrange(nk), rng.choice([1, -1]), -1))
            else: row.append((rng.randrange(nk), rng.choice([1, -1]), rng.randrange(ns)))
        tab.append(row)
    if rng.random() < 0.7: tab[0][0] = (1, 1, min(1, ns - 1))
    return tab

def live_table(rng, ns=None, nk=None):
    """TNF-like machine: grown by running, so most of the table is used."""
    ns = ns or rng.choice([2, 2, 3, 3, 4, 5]); nk = nk or rng.choice([2, 2, 2, 3, 4])
    tab = [[None] * nk for _ in range(ns)]
    tab[0][0] = (1, 1, min(1, ns - 1))
    left = ns * nk - 1
    r = Ref(tab)
    for _ in range(400):
        s = r.tape.get(r.pos, 0)
        if tab[r.state][s] is None:
            if left <= rng.choice([1, 1, 2]): break
            ms = max([t[2] for row in tab for t in row if t] + [0]); mk = max([t[0] for row in tab for t in row if t] + [0])
            tab[r.state][s] = (rng.randrange(min(nk, mk + 2)), rng.choice([1, -1]), rng.randrange(min(ns, ms + 2)))
            left -= 1
        r.step()
        if r.halted: break
    return tab

CHAMPIONS = ["1RB1LB_1LA1RZ", "1RB1RZ_1LB0RC_1LC1LA", "1RB1LB_1LA0LC_1RZ1LD_1RD0RA", "1RB1LC_1RC1RB_1RD0LE_1LA1LD_1RZ0LA",
             "1RB2LB1RZ_2LA2RB1LB", "1RB2LA1RA1RA_1LB1LA3RB1RZ", "1RB1RZ1RB_1LC0RB1RA_1RA0LB1RC".replace("1RZ1RB", "1RZ1RB"),
             "1RB2RA1RC_2LC1RB2LB_1LA2RB---", "1RB0LD_1LC1RA_0RB0LC_1LE1RD_---0LA", "1RB---_0RC0RE_1LC0LD_0LA1RD_0LD1RB",
             "1RB2LA1RZ_1LA2RB0RA".replace("0RA", "1LB"), "1RB1LA_0LA0RB", "1RB0LB_1LA0RB", "1RB1LA_1LA1RB"]
CHAMPIONS = [c for c in CHAMPIONS]
