#!/usr/bin/env python3
"""Engine self-test helper: mut.py MODS FILE 'old' 'new' [filter] -- verify a scratch copy with one textual change."""
import sys, os, shutil, subprocess, tempfile
mods, file, old, new = sys.argv[1:5]
d = tempfile.mkdtemp(prefix="mut")
try:
    shutil.copytree("/repo/Code", d + "/Code", ignore=shutil.ignore_patterns("__pycache__"))
    p = d + "/Code/" + file
    s = open(p).read()
    assert s.count(old) >= 1, "pattern not found"
    s = s.replace(old, new, 1)
    open(p, "w").write(s)
    r = subprocess.run(["python3-vt", "-m", "pyvc.run", mods] + sys.argv[5:], cwd="/verif", env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True)
    for l in r.stdout.splitlines():
        if "proved " not in l: print(l[:260])
    print(r.stderr[-800:])
finally:
    shutil.rmtree(d)
