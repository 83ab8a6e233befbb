#!/usr/bin/env python3
"""runseeds.py [filter...]: apply each seeded change to a scratch copy and run its property's quick check on it."""
import sys, os, json, subprocess, shutil, tempfile, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in sorted(glob.glob(V + "/seeded/*")):
    i = os.path.basename(d)
    fl = [a for a in sys.argv[1:] if a != "-v"]
    if fl and not any(f in i for f in fl): continue
    p = json.load(open(d + "/meta.json"))["property"]
    W = tempfile.mkdtemp(prefix="rs_", dir="/tmp")
    try:
        subprocess.run("cp -a /repo %s/repo && cd %s/repo && git apply %s/patch.diff" % (W, W, d), shell=True, check=True)
        r = subprocess.run(["python3-vt", V + "/check.py", p, "--tier", "quick"], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=W + "/repo"))
        v = [l for l in r.stdout.splitlines() if "VIOLATION" in l]
        print(i, p, "exit", r.returncode, "CAUGHT" if v else "MISSED", "(nfi)" if v and "no-failing" in v[0] else "", (r.stdout.splitlines() + [""])[0][:110], r.stderr[-300:], flush=True)
        f = V + "/tools/seedresults.json"; res = json.load(open(f)) if os.path.exists(f) else {}
        fo = [x for x in json.load(open(V + "/evidence/%s.json" % p))["coverage"]["functions_under_contract"] if x["status"] == "failed"]
        res[i] = ("%s: " % p + ("failing input" if v and "no-failing" not in v[0] else "failed obligation, no input") + (" and failed obligations of " + ", ".join(x["function"].split(":")[1] for x in fo[:3]) if fo else "")) if v else "missed"
        json.dump(res, open(f, "w"), indent=1, sort_keys=True)
        if "-v" in sys.argv or not v: print(r.stdout[-1500:])
    finally: shutil.rmtree(W, ignore_errors=True)
