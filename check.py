#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decide one property on /repo's current tree."""
import sys, os, json, time, subprocess, importlib, argparse, ast, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
REPO = os.environ.get("VERIF_REPO", "/repo")
VPY = "/opt/venv/bin/python"

def norm_hash(path):
    try: t = ast.parse(open(path, encoding="utf-8").read())
    except Exception: return None
    for n in ast.walk(t):
        b = getattr(n, "body", None)
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and b and isinstance(b[0], ast.Expr) and isinstance(getattr(b[0], "value", None), ast.Constant):
            n.body = b[1:]
    return hashlib.sha256(ast.dump(t).encode()).hexdigest()[:16]

def cpp_hash(path):
    """of the text without comments and layout"""
    import re
    t = re.sub(r'''"(?:\\.|[^"\\\n])*"|'(?:\\.|[^'\\\n])*'|//[^\n]*|/\*.*?\*/''', lambda m: m.group(0) if m.group(0)[0] in "\"'" else " ", open(path, encoding="utf-8").read(), flags=re.S)
    return hashlib.sha256(" ".join(t.split()).encode()).hexdigest()[:16]

def tree_hashes():
    out = {}
    for d, _, fs in os.walk(os.path.join(REPO, "Code")):
        if "__pycache__" in d: continue
        for f in fs:
            if f.endswith(".py"):
                p = os.path.join(d, f); out[os.path.relpath(p, REPO)] = norm_hash(p)
    src = os.path.join(REPO, "cpp", "src")
    for f in sorted(os.listdir(src)) if os.path.isdir(src) else []:
        if f.endswith((".cpp", ".h")): out["cpp/src/" + f] = cpp_hash(os.path.join(src, f))
    return out

def bounded(mod, seed, budget, tier, out, workers=8):
    if os.path.exists(out): os.unlink(out)
    try: p = subprocess.run([VPY, "-B", os.path.join(HERE, "bounded", "main.py"), mod, "--seed", str(seed), "--budget", str(budget), "--tier", tier, "--out", out, "--workers", str(workers)],
                       cwd=HERE, capture_output=True, text=True, timeout=budget * 4 + 300, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0"))
    except subprocess.TimeoutExpired:
        return dict(evals=0, distinct=0, samples=[], violations=[], counts={}, notes=[], errors=["the bounded stand-in did not finish in %d s" % (budget * 4 + 300)])
    if not os.path.exists(out):
        return dict(evals=0, distinct=0, samples=[], violations=[], counts={}, notes=[], errors=[p.stdout[-2000:] + p.stderr[-4000:]])
    return json.load(open(out))

def known_match(known, prop, v):
    for k in known:
        if k["property"] == prop and k.get("status") == "known":
            sig = k["signature"]
            blob = json.dumps(v, sort_keys=True)
            if all(s in blob for s in sig): return k
    return None

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--no-bounded", action="store_true"); ap.add_argument("--no-proof", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    from props import PROPS
    P = PROPS[a.prop]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    work = os.path.join(HERE, "evidence", "work"); os.makedirs(work, exist_ok=True)
    rdir = os.path.join(HERE, "evidence", "replay"); os.makedirs(rdir, exist_ok=True)
    known = json.load(open(os.path.join(HERE, "known_findings.json")))

    # 1. deductive part ------------------------------------------------------
    results = []
    if not a.no_proof and P.get("mods"):
        from pyvc.run import verify_groups
        groups, owner, seen = [], [], set()
        for pid in [a.prop] + [d for d in P.get("deps", []) if PROPS[d].get("mods")]:   # the property's own contracts, then those of the properties it builds on
            Q = PROPS[pid]; keys, lems = [], []
            for m in Q["verify"]:
                if m in seen: continue
                seen.add(m); mod = importlib.import_module("contracts." + m)
                keys += [c.key() for c in getattr(mod, "CONTRACTS", []) if not c.assumed]
                lems += [(m, l) for l in getattr(mod, "LEMMAS", [])]
            groups.append((Q["mods"], keys, lems)); owner += [pid] * (len(keys) + len(lems))
        for ms in P.get("extra", []):   # contracts with their own view of the functions they call
            mod = importlib.import_module("contracts." + ms[0]); keys = [c.key() for c in mod.CONTRACTS if not c.assumed]; lems = [(ms[0], l) for l in mod.LEMMAS]
            groups.append((ms, keys, lems)); owner += [a.prop] * (len(keys) + len(lems))
        results = verify_groups(groups)
        for r, o in zip(results, owner): r["owner"] = o
    for fn in P.get("extra_provers", []):
        modname, f = fn.split(":")
        results += getattr(importlib.import_module(modname), f)(a.tier)
    nob = sum(len(r["obligations"]) for r in results)
    ndis = sum(o["status"] == "proved" for r in results for o in r["obligations"])
    failed = [r for r in results if r["status"] == "failed"]
    unsup = [r for r in results if r["status"] == "unsupported"]

    # 2. bounded part ----------------------------------------------------------
    budget = P.get("budget", 25) * (1 if a.tier == "quick" else 6)
    b = dict(evals=0, distinct=0, samples=[], violations=[], counts={}, notes=[], errors=[])
    if P.get("bounded") and not a.no_bounded:
        b = bounded(P["bounded"], seed, budget, a.tier, os.path.join(work, a.prop + ".json"))
        b["violations"] = [v for v in b["violations"]]
        new = [v for v in b["violations"] if known_match(known, a.prop, v) is None]
        if not new and not b["errors"] and (failed or unsup) and a.tier == "quick":
            # look harder for a failing input
            b2 = bounded(P["bounded"], seed + 1000, budget * 3 if time.time() - t0 < 500 else budget, "thorough", os.path.join(work, a.prop + ".2.json"))
            for k in ("evals", "distinct"): b[k] += b2[k]
            b["violations"] += b2["violations"]; b["errors"] += b2["errors"]
            # ... also in the harness of the property whose contract is in doubt
            for d in sorted({r.get("owner", a.prop) for r in failed + unsup} - {a.prop}):
                if [v for v in b["violations"] if known_match(known, a.prop, v) is None] or time.time() - t0 > 600: break
                if PROPS[d].get("bounded"):
                    b3 = bounded(PROPS[d]["bounded"], seed + 2000, PROPS[d].get("budget", 12) * 2, "thorough", os.path.join(work, a.prop + ".3.json"))
                    b["evals"] += b3["evals"]; b["distinct"] += b3["distinct"]
                    for v in b3["violations"]:
                        if known_match(known, d, v) is None: b["violations"].append(dict(v, harness=PROPS[d]["bounded"], what="%s (breaks %s, on which %s builds)" % (v.get("what"), d, a.prop)))
    new, seen_known = [], {}
    for v in b["violations"]:
        k = known_match(known, a.prop, v)
        if k is None: new.append(v)
        else: seen_known[k["id"]] = k

    # 3. verdict -----------------------------------------------------------------
    lines = []
    viol = 0
    for k in known:
        if k["property"] == a.prop and k.get("status") == "known":
            lines.append("KNOWN-FINDING: property=%s %s" % (a.prop, k["what"]))
    same = False
    try: same = json.load(open(os.path.join(HERE, "baseline.json"))) == tree_hashes()
    except Exception: pass
    exit_code = 0
    if new:
        viol = len(new)
        path = os.path.join(rdir, a.prop + ".json")
        json.dump(dict(property=a.prop, violation=new[0], others=new[1:10], replay_cmd="%s -B bounded/main.py %s --replay %s" % (VPY, new[0].get("harness", P["bounded"]), path),
                       failed_obligations=[dict(function=r["key"], line=r["line"], obligations=[o for o in r["obligations"] if o["status"] != "proved"][:5]) for r in failed]), open(path, "w"), indent=1)
        lines.append("%s" % new[0]["what"]); lines.append("VIOLATION property=%s replay=%s" % (a.prop, path)); exit_code = 1
    elif b["errors"] and (same or unsup or not results) and not (failed and not same):
        lines.append("ERROR in the bounded harness:\n" + b["errors"][0][-3000:]); exit_code = 2
    elif failed and not same:
        viol = len(failed)
        path = os.path.join(rdir, a.prop + ".json")
        json.dump(dict(property=a.prop, failed_obligations=[dict(function=r["key"], line=r["line"], obligations=[o for o in r["obligations"] if o["status"] != "proved"][:10]) for r in failed]), open(path, "w"), indent=1)
        for r in failed:
            for o in [o for o in r["obligations"] if o["status"] != "proved"][:3]: lines.append("obligation not discharged: %s: %s (%s)" % (r["key"], o["label"], o["status"]))
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (a.prop, path)); exit_code = 1
    elif failed:
        lines.append("WARNING: obligations undischarged on the unchanged tree (solver limit), not a violation: " + ", ".join(r["key"] for r in failed))
    if b["errors"] and exit_code != 2: lines.append("note: the bounded stand-in could not be run on this tree (%s); decided by the proofs only" % b["errors"][0].strip().splitlines()[-1][:200])
    for r in unsup: lines.append("note: %s is outside the verifier's reach on this tree (%s); decided by the bounded stand-in only" % (r["key"], r["reason"][:160]))

    # 4. evidence ------------------------------------------------------------------
    cov = {}
    level = P["level"]
    cov.update(obligations=nob, discharged=ndis, checker_cmd="python3-vt check.py %s --tier %s" % (a.prop, a.tier),
               trusted_base=P.get("trusted", []) + TRUSTED, solver_s=round(sum(r["solver_s"] for r in results), 2), queries=sum(r["queries"] for r in results),
               backends={k: sum(o["backend"] == k for r in results for o in r["obligations"]) for k in ("z3", "cvc5", "syntactic", "lean")},
               functions_under_contract=[dict(function=r["key"], property=r.get("owner", a.prop), line=r["line"], status=r["status"], obligations=len(r["obligations"]), discharged=sum(o["status"] == "proved" for o in r["obligations"]),
                                              paths=r["paths"], uncovered_lines=r["uncovered"], inlined=r["inlined"], callee_contracts=r["used"], reason=r["reason"], seconds=r["secs"]) for r in results],
               bounded=dict(label="bounded, not counted as proved", module=P.get("bounded"), bound=P.get("bound", ""), evaluations=b["evals"], distinct_nontrivial=b["distinct"], counts=b["counts"], notes=b["notes"]),
               evaluations=b["evals"], distinct_nontrivial=b["distinct"], rule=P.get("rule", "distinct machine/input tuples actually compared with the reference"), samples=b["samples"] or ["none"],
               explanation=P.get("note", ""))
    ev = dict(property=a.prop, tier=a.tier if a.tier in ("quick", "thorough") else "quick", seed=seed, level=level, coverage=cov,
              assumptions=P.get("assumptions", []) + ["partial correctness: termination of loops is not proved"], wall_s=round(time.time() - t0, 2), violations=viol)
    json.dump(ev, open(os.path.join(HERE, "evidence", a.prop + ".json"), "w"), indent=1)
    if results and nob == 0 and not unsup:
        lines.append("ERROR: no obligations generated"); exit_code = exit_code or 2
    print("%s: %d contracts, %d/%d obligations discharged, %d unsupported; bounded: %d evaluations (%d distinct); %.1fs" % (a.prop, len(results), ndis, nob, len(unsup), b["evals"], b["distinct"], time.time() - t0))
    for l in lines: print(l)
    sys.exit(exit_code)

TRUSTED = ["z3 4.x / cvc5 (solvers)", "pyvc (the verification-condition generator in /verif/pyvc, cross-checked against CPython and against seeded faults)",
           "CPython semantics of ints, lists, deques and dicts as modelled by pyvc"]
if __name__ == "__main__": main()
