#!/usr/bin/env python3
"""Writes MANIFEST.json from checks/*/check.json and properties.jsonl."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
na = {}
f = V + "/tools/not_applicable.json"
if os.path.exists(f):
    na = json.load(open(f))
checks, nas = [], []
for p in props:
    c = V + "/checks/%s/check.json" % p["id"]
    if os.path.exists(c) and not json.load(open(c)).get("draft"):
        d = json.load(open(c))
        checks.append(dict(property=p["id"], quick_cmd="python3 run.py %s quick" % p["id"],
                           thorough_cmd="python3 run.py %s thorough" % p["id"],
                           evidence_file="evidence/%s.json" % p["id"],
                           technique=d["technique"], level=d["level"], level_note=d["level_note"]))
    else:
        nas.append(dict(property=p["id"], reason=na.get(p["id"], "no check built yet")))
m = dict(version=1, setup_cmd="python3 setup.py",
         checks=checks, not_applicable=nas,
         notes="Harnesses are compiled into the packages with go test -overlay; no hooks are committed in /repo.")
m["hooks"] = dict(guard="none (go build -overlay)", enable="run.py builds the current tree with -overlay; where scheduling points or recording shims are needed, tools/instrument rewrites a scratch copy of the current source, which the overlay substitutes", source_commits=[])
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(nas), "not applicable")
