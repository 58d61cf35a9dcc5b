#!/usr/bin/env python3
"""Collects measured harness times (kt.sh summaries in a directory) into tiers.json"""
import glob, json, re, sys
t = json.load(open('/verif/tiers.json')) if glob.glob('/verif/tiers.json') else {}
for f in sys.argv[1:]:
    for l in open(f):
        m = re.match(r'(\S+::\S+) ([\d.]+)s VERIFICATION:- SUCC', l)
        if m: t[m[1]] = {"s": round(float(m[2]), 1)}; continue
        m = re.match(r'(\S+::\S+) \?', l)
        if m and m[1] not in t: t[m[1]] = {"s": 400}
json.dump(dict(sorted(t.items())), open('/verif/tiers.json', 'w'), indent=0)
print(len(t))
