#!/usr/bin/env python3
"""sweep.py PROP FILE[:func,func] [-n N] [--seed S] : mutate FILE (relative to /repo/Code) at random places, run the
bounded stand-in, then (if quiet) the proofs of PROP, then (if quiet) the repository's tests, and list the survivors.
A test of the checks themselves; no check uses it."""
import sys, os, ast, random, subprocess, shutil, tempfile, json, argparse
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
if len(sys.argv) > 2 and sys.argv[1] == "--proof":
    sys.setrecursionlimit(20000)
    import importlib
    from props import PROPS
    from pyvc.run import verify_groups
    P = PROPS[sys.argv[2]]; keys, lems = [], []
    for m in P["verify"]:
        mod = importlib.import_module("contracts." + m)
        keys += [c.key() for c in getattr(mod, "CONTRACTS", []) if not c.assumed]
        lems += [(m, l) for l in getattr(mod, "LEMMAS", [])]
    gs = [(P["mods"], keys, lems)]
    for ms in P.get("extra", []):
        mod = importlib.import_module("contracts." + ms[0]); gs.append((ms, [c.key() for c in mod.CONTRACTS if not c.assumed], [(ms[0], l) for l in mod.LEMMAS]))
    rs = verify_groups(gs, procs=2, limit=800)
    f = [(r["key"], [o["label"] for o in r["obligations"] if o["status"] != "proved"][:1]) for r in rs if r["status"] == "failed"]
    u = [r["key"] for r in rs if r["status"] == "unsupported"]
    print("RESULT", json.dumps([f, u])); sys.exit(0)

ap = argparse.ArgumentParser(); ap.add_argument("prop"); ap.add_argument("file"); ap.add_argument("-n", type=int, default=30); ap.add_argument("--seed", type=int, default=1)
ap.add_argument("-j", type=int, default=4); ap.add_argument("--budget", type=float, default=14); ap.add_argument("--only", type=int, nargs="*"); ap.add_argument("--list", action="store_true")
a = ap.parse_args()
fn, _, funcs = a.file.partition(":"); funcs = [f for f in funcs.split(",") if f]
src = open("/repo/Code/" + fn).read(); tree = ast.parse(src)
lines = src.split("\n"); offs = [0]
for l in lines: offs.append(offs[-1] + len(l.encode()) + 1)
raw = src.encode()
def span(n): return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset
def seg(n): s, e = span(n); return raw[s:e].decode()
muts = []
def add(n, new, kind, fname):
    s, e = span(n); muts.append((n.lineno, kind, s, e, new, fname))
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.FloorDiv: "*", ast.Mod: "//", ast.Pow: "*"}
SKIP = ("print", "verbose", "debug", "_str", "__str__", "__repr__", "html", "main", "log_", "stats")
def walk(n, fname, active):
    if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
        if isinstance(n, ast.FunctionDef):
            if any(k in n.name.lower() for k in SKIP if k != "main") or n.name == "main": return
            fname = n.name; active = not funcs or n.name in funcs or active and bool(funcs)
            if n.name == "__hash__": return
        for c in n.body: walk(c, fname, active)
        return
    if isinstance(n, (ast.Assert, ast.Raise, ast.Import, ast.ImportFrom)): return
    if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant): return
    t = seg(n) if isinstance(n, ast.stmt) else ""
    if isinstance(n, ast.If) and ("verbose" in seg(n.test) or "__name__" in seg(n.test) or "debug" in seg(n.test).lower()): return
    if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and ("print" in t.split("(")[0]): return
    if active:
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            op = CMP.get(type(n.ops[0]))
            if op: add(n, "%s %s %s" % (seg(n.left), op, seg(n.comparators[0])), "cmp", fname)
            if type(n.ops[0]) in (ast.Lt, ast.LtE, ast.Gt, ast.GtE): add(n, "%s %s %s" % (seg(n.left), {ast.Lt: ">=", ast.LtE: ">", ast.Gt: "<=", ast.GtE: "<"}[type(n.ops[0])], seg(n.comparators[0])), "neg", fname)
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.Constant) or isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left.value, str):
            add(n, "%s %s %s" % (seg(n.left), BIN[type(n.op)], seg(n.right)), "bin", fname)
        if isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "(" + op.join(seg(v) for v in n.values) + ")", "bool", fname)
            for i in range(len(n.values)): add(n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join(seg(v) for j, v in enumerate(n.values) if j != i) + ")", "drop", fname)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)): add(n, seg(n.operand), "un", fname)
        if isinstance(n, ast.Constant) and type(n.value) is int: add(n, str(n.value + 1), "const+", fname); n.value and add(n, str(n.value - 1), "const-", fname)
        if isinstance(n, ast.Constant) and type(n.value) is bool: add(n, str(not n.value), "flip", fname)
        if isinstance(n, (ast.Assign, ast.AugAssign)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call): add(n, "pass", "del", fname)
        if isinstance(n, ast.Break): add(n, "continue", "brk", fname)
        if isinstance(n, ast.Continue): add(n, "pass", "brk", fname)
        if isinstance(n, ast.If): add(n.test, "True", "ifT", fname); add(n.test, "False", "ifF", fname)
        if isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(x, ast.Starred) for x in n.args):
            s = span(n.args[0])[0]; e = span(n.args[1])[1]; muts.append((n.lineno, "swap", s, e, "%s, %s" % (seg(n.args[1]), seg(n.args[0])), fname))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "deepcopy"): add(n, seg(n.func.value) if not n.args else seg(n.args[0]), "nocopy", fname)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("max", "min"): add(n.func, {"max": "min", "min": "max"}[n.func.id], "mm", fname)
        if isinstance(n, ast.Slice) :
            pass
    for c in ast.iter_child_nodes(n): walk(c, fname, active)
walk(tree, "", not funcs)
good = []
for m in muts:
    ns = (raw[:m[2]] + m[4].encode() + raw[m[3]:]).decode()
    try: ast.parse(ns); good.append(m + (ns,))
    except SyntaxError: pass
random.Random(a.seed).shuffle(good); sel = list(enumerate(good[:a.n]))
print(len(good), "mutants,", len(sel), "selected", flush=True)
if a.only is not None: sel = [(i, m) for i, m in sel if i in a.only]
def desc(m): return "%s:%d %s %s | %s -> %s" % (fn, m[0], m[5], m[1], raw[m[2]:m[3]].decode()[:70].replace("\n", "\\n"), m[4][:70])
if a.list:
    for i, m in sel: print(i, desc(m))
    sys.exit()
sys.path.insert(0, V); from props import PROPS
base = json.load(open("/opt/vp/BASELINE.json"))
def run(im):
    i, m = im; d = tempfile.mkdtemp(prefix="sw_", dir="/tmp")
    try:
        shutil.copytree("/repo", d + "/r", ignore=shutil.ignore_patterns("__pycache__", ".git", "rust"), symlinks=True)
        open(d + "/r/Code/" + fn, "w").write(m[6])
        env = dict(os.environ, VERIF_REPO=d + "/r", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
        o = d + "/o.json"
        try:
            p = subprocess.run(["/opt/venv/bin/python", "-B", V + "/bounded/main.py", PROPS[a.prop]["bounded"], "--budget", str(a.budget), "--workers", "2", "--out", o], env=env, capture_output=True, text=True, timeout=a.budget * 6 + 260, cwd=V)
            b = json.load(open(o)) if os.path.exists(o) else None
        except subprocess.TimeoutExpired: return i, "HANG(bounded)", m
        if b is None: return i, "bounded-error " + p.stderr[-150:].replace("\n", " "), m
        if b["violations"]: return i, "bounded", m
        if b["errors"]: return i, "bounded-exit2 " + b["errors"][0][-150:].replace("\n", " "), m
        p = subprocess.run(["python3-vt", os.path.abspath(__file__), "--proof", a.prop], env=env, capture_output=True, text=True, cwd=V)
        if "RESULT" not in p.stdout: return i, "proof-error " + p.stderr[-200:].replace("\n", " "), m
        f, u = json.loads(p.stdout.split("RESULT", 1)[1])
        if f: return i, "proof " + str(f[0]), m
        R = d + "/r"; J = d + "/j"; os.makedirs(J)
        t = R + "/Code/test_Enumerate.py"; x = open(t).read(); open(t, "w").write(x.replace("/tmp/test_Enumerate/", d + "/te/"))  # runs side by side
        subprocess.run("cd %s/Code && ls test_*.py | grep -v MPI | PATH=/opt/venv/bin:$PATH LANG=C.UTF-8 PYTEST_DISABLE_PLUGIN_AUTOLOAD=1 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH=%s/Code:/opt/vp/plugins xargs -P 2 -I{} timeout 200 /opt/venv/bin/python -m pytest -q --rootdir=%s -p no:cacheprovider -p vp_argv -p pytest_timeout --timeout=60 -o junit_family=xunit2 --junitxml=%s/{}.xml {}" % (R, R, R, J), shell=True, capture_output=True)
        import glob, xml.etree.ElementTree as ET
        passed = set()
        for x in glob.glob(J + "/*.xml"):
            for tc in ET.parse(x).iter("testcase"):
                if not list(tc): passed.add(tc.get("classname") + "::" + tc.get("name"))
        miss = [t for t in base["stable"] if t not in passed and "MPI" not in t]
        return i, ("tests " + miss[0]) if miss else "SURVIVED" + (" unsupported:" + ",".join(u) if u else ""), m
    finally: shutil.rmtree(d, ignore_errors=True)
cnt = {}
with ThreadPoolExecutor(a.j) as ex:
    for i, r, m in ex.map(run, sel):
        cnt[r.split()[0]] = cnt.get(r.split()[0], 0) + 1
        if not r.startswith(("bounded ", "proof ")) and r != "bounded": print("%3d %s\n      %s" % (i, r, desc(m)), flush=True)
print(a.prop, a.file, cnt)
