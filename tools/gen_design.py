#!/usr/bin/env python3
"""Rewrites the section on planted bugs of DESIGN.md from seeded/*/meta.json."""
import json, os, glob, collections
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = collections.defaultdict(list)
for m in sorted(glob.glob(root + "/seeded/*/meta.json")):
    by[json.load(open(m))["property"]].append(os.path.basename(os.path.dirname(m)))
n = sum(map(len, by.values()))
out = ["## Planted bugs", "",
 "%d changes are kept in seeded/ (each compiles, passes the tests, and has a demonstration). All of them are caught by the quick" % n,
 "check of their own property (`tools/tryplants.py`); those that were missed at first led to the stronger workloads above. By check:", ""]
for p in sorted(by):
    out.append("* %s: %s" % (p, ", ".join(x[len(p)+1:] if x.startswith(p.lower()+"-") else x for x in by[p])))
s = open(root + "/DESIGN.md").read()
i = s.find("## Planted bugs")
s = (s[:i] if i >= 0 else s.rstrip("\n") + "\n\n") + "\n".join(out) + "\n"
open(root + "/DESIGN.md", "w").write(s)
