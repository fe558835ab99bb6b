#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, check.py's MODULES and the notes below."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(os.path.join(V, "check.py")).read()
mods = set(re.findall(r"(P\d\d)=", src))
NOTE = json.load(open(os.path.join(V, "tools", "notes.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in mods:
        t, n = NOTE[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="python3 check.py %s thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=t, level="model_checking", level_note=n))
    else:
        na.append(dict(property=i, reason="the specification for it is still being written"))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="TLA+ with TLC. No hooks in /repo: everything is observed at the API, on sockets and in services; the drivers "
               "import the code from /repo's working tree.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
