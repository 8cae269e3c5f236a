#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks registered in checks.py."""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from checks import CHECKS
from manifest_text import TECH, NOTE, DEFAULT_NOTE, DEFAULT_TECH, NA
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in CHECKS:
        checks.append(dict(property=p, quick_cmd="python3 run_check.py %s" % p,
                           thorough_cmd="VERIF_TIER=thorough python3 run_check.py %s" % p,
                           evidence_file="evidence/%s.json" % p, technique=TECH.get(p, DEFAULT_TECH),
                           level="exploration", level_note=NOTE.get(p, DEFAULT_NOTE)))
    else:
        na.append(dict(property=p, reason=NA.get(p, "check not built yet")))
m = dict(version=1, setup_cmd="python3 run_check.py --setup", checks=checks, not_applicable=na,
         notes="No hooks: the checks use only the public interface of the header-only library and compile it from /repo's "
               "working tree on every run. Replay: python3 run_check.py ID --replay FILE.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
