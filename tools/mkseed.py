#!/usr/bin/env python3
"""mkseed.py SPEC.py: SPEC defines a list SEEDS of dict(id, property, needs, breaks, edits=[(file, old, new)], demo=python source).
Confirms each in a scratch copy (tests pass, demo passes without and fails with) and writes /verif/seeded/<id>."""
import sys, os, subprocess, json, shutil, tempfile, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
base = json.load(open("/opt/vp/BASELINE.json"))
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
DEMO = '''#!/bin/bash
# exit 0 on a correct tree, nonzero when the property is broken
D=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/Code:$D"
exec timeout 250 /opt/venv/bin/python "$D/demo.py"
'''
CPPDEMO = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=c++20 -O1 -I cpp/src -o "$T/demo" "$D/demo.cc" %s && timeout 250 "$T/demo"
'''
for s in runpy.run_path(sys.argv[1])["SEEDS"]:
    if len(sys.argv) > 2 and s["id"] not in sys.argv[2:]: continue
    W = tempfile.mkdtemp(prefix="seed_", dir="/tmp"); R = W + "/repo"
    try:
        sh("cp -a /repo %s" % R)
        sd = V + "/seeded/" + s["id"]; shutil.rmtree(sd, ignore_errors=True); os.makedirs(sd)
        if "demo" in s:
            if "demo_util" in s["demo"]: shutil.copy(os.path.dirname(os.path.abspath(sys.argv[1])) + "/demo_util.py", sd)
            open(sd + "/demo.py", "w").write(s["demo"]); open(sd + "/demo.sh", "w").write(DEMO)
        else:
            open(sd + "/demo.cc", "w").write(s["cppdemo"]); open(sd + "/demo.sh", "w").write(CPPDEMO % s.get("cppsrc", ""))
        os.chmod(sd + "/demo.sh", 0o755)
        d0 = sh("bash %s/demo.sh" % sd, cwd=R)
        for f, old, new in s["edits"]:
            p = R + "/" + f; t = open(p).read()
            assert t.count(old) == 1, (s["id"], f, old, t.count(old))
            open(p, "w").write(t.replace(old, new))
        d1 = sh("bash %s/demo.sh" % sd, cwd=R)
        open(sd + "/patch.diff", "w").write(sh("git diff", cwd=R).stdout)
        # tests
        fails = []
        J = W + "/j"; os.makedirs(J)
        sh("cd %s/Code && ls test_*.py | grep -v MPI | PATH=/opt/venv/bin:$PATH LANG=C.UTF-8 PYTEST_DISABLE_PLUGIN_AUTOLOAD=1 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH=%s/Code:/opt/vp/plugins xargs -P 8 -I{} timeout 200 /opt/venv/bin/python -m pytest -q --rootdir=%s -p no:cacheprovider -p vp_argv -p pytest_timeout --timeout=60 -o junit_family=xunit2 --junitxml=%s/{}.xml {}" % (R, R, R, J))
        import glob, xml.etree.ElementTree as ET
        passed = set()
        for x in glob.glob(J + "/*.xml"):
            for tc in ET.parse(x).iter("testcase"):
                if not list(tc): passed.add(tc.get("classname") + "::" + tc.get("name"))
        miss = [t for t in base["stable"] if t not in passed and "MPI" not in t]
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(sd + "/meta.json", "w"), indent=1)
        ok = d0.returncode == 0 and d1.returncode != 0
        print(s["id"], "demo", d0.returncode, d1.returncode, "OK" if ok else "BAD", "| failing stable tests:", miss)
        if not ok: print(d0.stdout[-500:], d0.stderr[-800:], "----", d1.stdout[-300:], d1.stderr[-300:])
    finally: shutil.rmtree(W, ignore_errors=True)
