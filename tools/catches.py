#!/usr/bin/env python3
"""writes catches.md from seeded/*/meta.json and catches.txt (lines: bug  checks that report it)"""
import json, glob, os
D=os.path.dirname(os.path.abspath(__file__)); V=os.path.dirname(D)
c={}
for l in open(D+"/catches.txt"):
    a=l.split()
    if a: c[a[0]]=a[1:]
rows=[]
for p in sorted(glob.glob(V+"/seeded/*/meta.json")):
    i=os.path.basename(os.path.dirname(p)); m=json.load(open(p))
    rows.append((m["property"],i,m["needs"],c.get(i)))
rows.sort()
with open(D+"/catches.md","w") as f:
    f.write("\n## Planted bugs\n\n%d changes, each confirmed in a scratch copy: it compiles, the stable tests pass, and its\ndemonstration fails with it and passes without it. \"Reported by\" lists quick checks which\nwere run against it and reported a violation.\n\n| property | change | needs | reported by |\n|---|---|---|---|\n"%len(rows))
    for r in rows: f.write("| %s | %s | %s | %s |\n"%(r[0],r[1],r[2].replace("|","/"),", ".join(r[3]) if r[3] else "(missed)"))
    f.write("\n")
