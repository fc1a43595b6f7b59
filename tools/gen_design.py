#!/usr/bin/env python3
"""Fills the tables of repairs and of planted bugs in DESIGN.md (by hand, after try_seed.sh).
seeded/caught.txt: one line per planted bug, "ID ENTRY: CLAIM", as the check reported it."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = f"{V}/DESIGN.md"
s = open(p).read()
fixed = ["| commit | property | what failed |", "|---|---|---|"]
for m in re.findall(r"^fixed: property=(\S+) (\S+) (.*)$", open(f"{V}/known_findings.txt").read(), re.M):
    fixed.append(f"| {m[1]} | {m[0]} | {m[2]} |")
caught = {}
for l in open(f"{V}/seeded/caught.txt"):
    a, b = l.rstrip("\n").split(" ", 1)
    caught[a] = b
seeds = ["| planted | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(f"{V}/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    seeds.append(f"| {i} | {m['property']} | {m['needs']} | {caught.get(i, 'not caught')} |")
for name, rows in (("fixed", fixed), ("seeds", seeds)):
    s = re.sub(r"<!-- %s -->.*?<!-- end -->" % name, lambda _: f"<!-- {name} -->\n" + "\n".join(rows) + "\n<!-- end -->", s, flags=re.S)
open(p, "w").write(s)
