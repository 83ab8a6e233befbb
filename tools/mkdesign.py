#!/usr/bin/env python3
"""DESIGN.md from the template, the list of findings and the results of runseeds.py"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(V + "/tools/design.tmpl.md").read()
t = t.replace("FINDINGS", "\n" + "\n".join("* " + k["text"] for k in json.load(open(V + "/known_findings.json"))))
try: res = json.load(open(V + "/tools/seedresults.json"))
except FileNotFoundError: res = {}
rows = ["", "", "| planted change | property | caught by | needs |", "|---|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, d))); rows.append("| %s | %s | %s | %s |" % (d, m["property"], res.get(d, "not run yet"), m["needs"]))
t = t.replace("SEEDTABLE", "\n".join(rows))
c = V + "/tools/design.cpp.md"; t = t.replace("CPPSECTION", open(c).read() if os.path.exists(c) else "")
open(V + "/DESIGN.md", "w").write(t)
