#!/usr/bin/env python3
"""addfix.py PROP COMMIT TEXT -- record a repaired defect in known_findings.json"""
import json, sys, subprocess
pr, c, t = sys.argv[1:4]; full = subprocess.check_output(["git", "-C", "/repo", "rev-parse", c], text=True).strip()
p = "/verif/known_findings.json"; k = json.load(open(p)); k.append(dict(status="fixed", property=pr, commit=full, text="fixed: property=%s %s %s" % (pr, full[:7], t))); json.dump(k, open(p, "w"), indent=1)
