#!/usr/bin/env python3
"""finding.py fixed PROP COMMIT WHAT | finding.py known PROP ID MATCH WHAT"""
import json, os, sys
F = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(F)) if os.path.exists(F) else {"findings": []}
a = sys.argv[1:]
if a[0] == "fixed":
    d["findings"].append(dict(status="fixed", property=a[1], commit=a[2], text="fixed: property=%s %s %s" % (a[1], a[2], a[3])))
else:
    d["findings"].append(dict(status="known", property=a[1], id=a[2], match=a[3], what=a[4]))
json.dump(d, open(F, "w"), indent=1)
