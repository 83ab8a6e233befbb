#!/usr/bin/env python3
import json
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
checks = []
for i in ids:
    if i in PROPS:
        P = PROPS[i]
        checks.append(dict(property=i, quick_cmd="python3-vt check.py %s --tier quick" % i, thorough_cmd="python3-vt check.py %s --tier thorough" % i,
            evidence_file="evidence/%s.json" % i, technique=P.get("technique", "contract-based deductive verification of the real Python source (pyvc VC generator, z3/cvc5) + bounded stand-in"),
            level=P["level"], level_note=P.get("level_note", "every obligation regenerated from /repo and discharged by SMT on each run; " + "; ".join(P.get("assumptions", [])))[:1500]))
na = [dict(property=i, reason=NOT_APPLICABLE.get(i, "not built yet")) for i in ids if i not in PROPS]
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
   hooks=dict(guard="none", enable="no hooks are needed: the checks parse and import /repo's working tree as it is", source_commits=[]),
   notes="See DESIGN.md. Checks parse /repo/Code on every run; nothing is cached between runs."), open("MANIFEST.json", "w"), indent=1)
