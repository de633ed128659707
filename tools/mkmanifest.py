#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, the registered plans and the notes below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from checks import plans
from tools.notes import NOTES, NA
checks, na = [], []
for ln in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(ln)["id"]
    if p in plans.PLANS:
        checks.append(dict(property=p, quick_cmd="python3 check.py %s" % p, thorough_cmd="VERIF_TIER=thorough python3 check.py %s" % p,
                           technique=NOTES[p][0], level="model_checking", level_note=NOTES[p][1]))
    else:
        na.append(dict(property=p, reason=NA.get(p, "check not built yet")))
m = dict(version=1, setup_cmd="python3 -m lib.build engine", checks=checks, not_applicable=na,
         hooks=dict(guard="none", enable="no hooks: the checks build /repo's sources as they are and observe them through the public OpenSSL API, exported engine functions and linker-wrapped libcrypto calls", source_commits=[]),
         notes="TLA+ specifications in spec/, checked with TLC; see DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
