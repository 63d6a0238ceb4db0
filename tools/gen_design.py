#!/usr/bin/env python3
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = open(V + "/tools/design_head.md").read()
na = json.load(open(V + "/tools/not_applicable.json")) if os.path.exists(V + "/tools/not_applicable.json") else {}
out += "## Properties\n\n"
for l in open(V + "/properties.jsonl"):
    p = json.loads(l); i = p["id"]
    out += "### %s %s\n\n" % (i, p["title"])
    c = V + "/checks/%s/check.json" % i
    if os.path.exists(c) and not json.load(open(c)).get("draft"):
        d = json.load(open(c))
        out += "Technique: %s.\n\n%s\n\n" % (d["technique"], d["level_note"])
        if d.get("assumptions"):
            out += "Assumptions: %s.\n\n" % "; ".join(d["assumptions"])
        f = V + "/checks/%s/NOTES.md" % i
        if os.path.exists(f):
            out += open(f).read().strip() + "\n\n"
        out += "Why tests cannot: %s\n\n" % p["why_tests_cant"]
    else:
        out += "Planned: %s. %s\n\n" % (p["quantifier"]["text"], na.get(i, "No check built yet."))
out += "## Findings on the pinned tree\n\n"
if os.path.exists(V + "/known_findings.json"):
    for f in json.load(open(V + "/known_findings.json"))["findings"]:
        out += "* %s\n" % (f["text"] if f["status"] == "fixed" else "known, %s %s: %s" % (f["property"], f["id"], f["what"]))
out += "\n"
f = V + "/tools/design_tail.md"
if os.path.exists(f): out += open(f).read() + "\n"
out += "## Planted bugs (seeded/)\n\n| bug | property | needs | caught by |\n|---|---|---|---|\n"
res = json.load(open(V + "/tools/seed_results.json")) if os.path.exists(V + "/tools/seed_results.json") else {}
for s in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % s))
    out += "| %s | %s | %s | %s |\n" % (s, m["property"], m["needs"], res.get(s, "?"))
open(V + "/DESIGN.md", "w").write(out)
