"""Verify contract modules in parallel processes."""
import importlib, multiprocessing as mp, sys, os, time
from .engine import Program, Stats
from .contract import Lemma

def registry(mods):
    cs, exts, lem = {}, {}, []
    for m in mods:
        mod = importlib.import_module("contracts." + m)
        for c in getattr(mod, "CONTRACTS", []): cs[c.key()] = c
        exts.update(getattr(mod, "EXTS", {}))
    return cs, exts

SLICE = 12.0
def _one(job):
    mods, kind, key = job[:3]; cont = job[3] if len(job) > 3 else None
    st = Stats()
    cs, exts = registry(mods)
    if kind == "contract":
        c = cs[key]
        res = c.verify(Program(), cs, exts, st, cont=cont, slice_s=SLICE if job[4:] else None)
    else:
        mod = importlib.import_module("contracts." + key[0])
        res = getattr(mod, key[1])().verify(st)
    obs = [dict(label=o.label, status=o.status, secs=round(o.secs or 0, 3), backend=o.backend, detail=o.detail, line=o.line,
                model=(str(o.model)[:3000] if o.model is not None else None)) for o in res.obligations]
    return dict(key="%s:%s" % (res.key[0], res.key[1]), status=res.status, reason=res.reason, secs=round(res.secs, 2), paths=res.paths,
                uncovered=res.uncovered, inlined=res.inlined, used=res.used, line=res.line, obligations=obs, queries=st.queries,
                solver_s=round(st.solver_s, 2), cvc5=st.cvc5, trace=getattr(res, "trace", None), ext=getattr(res, "ext", []),
                leftover=getattr(res, "leftover", None), restart=getattr(res, "restart", None))

RANK = {"proved": 0, "ok": 0, "failed": 1, "unsupported": 2}
def merge(a, b):
    """results of two parts of one function's paths"""
    for k in ("secs", "paths", "queries", "solver_s", "cvc5"): a[k] = round(a[k] + b[k], 2) if not isinstance(a[k], (bool, list)) else a[k]
    a["obligations"] += b["obligations"]; a["uncovered"] = sorted(set(a["uncovered"]) & set(b["uncovered"]))
    for k in ("inlined", "used", "ext"): a[k] = sorted(set(a[k]) | set(b[k]))
    if RANK.get(b["status"], 2) > RANK.get(a["status"], 2): a["status"], a["reason"], a["trace"] = b["status"], b["reason"], b["trace"]
    return a
def verify_all(mods, keys, lemmas=(), procs=8):
    return verify_groups([(mods, keys, lemmas)], procs)

def verify_groups(groups, procs=8, limit=420):
    """Every function is one job; a function whose exploration is not finished
    after a slice of time hands its unexplored paths back, and they become new
    jobs (the decisions of a path prefix are replayed, so the split is exact)."""
    jobs = [j for mods, keys, lemmas in groups for j in [(mods, "contract", k, None, True) for k in keys] + [(mods, "lemma", l) for l in lemmas]]
    if not jobs: return []
    if any(j[1] == "contract" and j[2][0] == "cpp" for j in jobs):     # translate once, before the processes fork
        try: Program().module("cpp")
        except Exception: pass
    ctx = mp.get_context("fork"); out = {}; rounds = {}; gen = {}; t0 = time.time()
    with ctx.Pool(procs, maxtasksperchild=1) as p:
        pend = [(i, 0, p.apply_async(_one, (j,))) for i, j in enumerate(jobs)]
        while pend:
            nxt = []; progress = False
            for i, g, h in pend:
                if not h.ready(): nxt.append((i, g, h)); continue
                progress = True; r = h.get()
                if g != gen.get(i, 0): continue                       # superseded by a restart
                lo, rs = r.pop("leftover"), r.pop("restart")
                if rs is not None:
                    rounds[i] = rounds.get(i, 0) + 1; gen[i] = g + 1; out.pop(i, None)
                    if rounds[i] > 40: r["status"], r["reason"] = "unsupported", "frames do not stabilise"; out[i] = r; continue
                    nxt.append((i, g + 1, p.apply_async(_one, ((jobs[i][0], "contract", jobs[i][2], rs, True),)))); continue
                out[i] = merge(out[i], r) if i in out else r
                if lo is not None:
                    parts = [lo["stack"][k::procs] for k in range(procs)]
                    for s in parts:
                        if s: nxt.append((i, g, p.apply_async(_one, ((jobs[i][0], "contract", jobs[i][2], dict(lo, stack=s), True),))))
            pend = nxt
            if pend and time.time() - t0 > limit:
                for i in {i for i, _, _ in pend}:
                    r = dict(key="%s:%s" % (jobs[i][2][0], jobs[i][2][1]), status="unsupported", reason="time limit for the proofs", secs=limit, paths=0, uncovered=[], inlined=[], used=[], line=None, obligations=[], queries=0, solver_s=0, cvc5=0, trace=None, ext=[])
                    out[i] = merge(out[i], r) if i in out else r
                p.terminate(); break
            if not progress: time.sleep(0.02)
    return [out[i] for i in range(len(jobs))]

if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    mods = sys.argv[1].split(",")
    cs, _ = registry(mods)
    mod = importlib.import_module("contracts." + mods[0])
    keys = [c.key() for c in getattr(mod, "CONTRACTS", []) if not c.assumed and (len(sys.argv) < 3 or sys.argv[2] in c.qualname)]
    lem = [(mods[0], l) for l in getattr(mod, "LEMMAS", []) if len(sys.argv) < 3 or sys.argv[2] in l]
    for r in verify_all(mods, keys, lem):
        n = len(r["obligations"]); d = sum(o["status"] == "proved" for o in r["obligations"])
        print("%-55s %-11s %3d/%3d paths=%d %.1fs %s unc=%s" % (r["key"], r["status"], d, n, r["paths"], r["secs"], r["reason"], r["uncovered"]))
        for o in r["obligations"]:
            if o["status"] != "proved": print("    ", o["status"], o["label"], "line", o["line"], "\n        ", (o["detail"] or "")[:400], "\n        ", (o["model"] or "")[:600] if "-v" in sys.argv else "")
        if r["trace"]: print("\n".join(r["trace"].splitlines()[-5:]))
