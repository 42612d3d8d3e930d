#!/usr/bin/env python3
"""table.py MATRIX : the planted-bug table of DESIGN.md from the output of matrix.sh and the meta.json files."""
import json, os, re, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = {}
for l in open(sys.argv[1]):
    p = l.split()
    r = re.search(r"replays/C\d\d-([\w-]+)\.txt", l)
    if p:
        caught[p[0]] = r.group(1) if r else caught.get(p[0]) and None
rows = []
for b in sorted(os.listdir(here + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (here, b)))
    c = caught.get(b)
    rows.append((m["property"], b, m["what_it_breaks"], "**missed**" if c is None else "suite `%s`" % c))
rows.sort()
print("| property | planted bug | what it breaks | caught by |\n|---|---|---|---|")
for r in rows:
    print("| %s | `%s` | %s | %s |" % tuple(x.replace("|", "\\|").replace("\n", " ") for x in r))
