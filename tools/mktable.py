#!/usr/bin/env python3
"""Table of planted bugs for DESIGN.md: mktable.py OUTPUT_OF_TRYBUGS"""
import json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for line in open(sys.argv[1]):
    m = re.match(r"(\S+) (C\d\d) (caught|MISSED|BROKEN)\S* .*?s +(\S*)", line)
    if m:
        res[m[1]] = (m[3], m[4].rstrip(":"))
print("| planted bug | property | needs | result |\n|---|---|---|---|")
for i in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", i, "meta.json")))
    r = res.get(i, ("not run", ""))
    print(f"| {i} | {m['property']} | {m['needs']} | {r[0]}{' by `' + r[1] + '`' if r[0] == 'caught' else ''} |")
