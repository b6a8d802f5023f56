#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks that exist."""
import importlib.util, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = json.load(open(os.path.join(V, "tools", "na.json"))) if os.path.exists(os.path.join(V, "tools", "na.json")) else {}
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l); i = p["id"]
    f = os.path.join(V, "checks", i + ".py")
    if not os.path.exists(f) or i in NA:
        na.append(dict(property=i, reason=NA.get(i, "no check built yet (work in progress)"))); continue
    t = open(f).read()
    def const(n, d):
        m = re.search(r'^%s = ("[^"]*"|\((?:\s*"[^"]*"\s*)+\))' % n, t, re.M)
        return eval(m.group(1)) if m else d
    checks.append(dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="python3 check.py " + i,
        technique=const("TECHNIQUE", "property-based testing"), level=const("LEVEL", "exploration"),
        level_note=const("NOTE", "Generated-input search with shrinking against the oracle in DESIGN.md; a pass shows that no violation was found in the explored cases, not that none exists.")))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks,", len(na), "not claimed")
