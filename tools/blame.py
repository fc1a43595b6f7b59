#!/usr/bin/env python3
"""Reads cargo's JSON messages; prints the compiler's errors to stderr, and the
names of the harness files they point into to stdout."""
import json, os, sys
bad = set()
def primary(span, depth=0):
    while span:
        yield span["file_name"]
        span = (span.get("expansion") or {}).get("span")
for line in open(sys.argv[1], errors="replace"):
    if not line.startswith("{"):
        continue
    m = json.loads(line)
    if m.get("reason") != "compiler-message" or m["message"].get("level") != "error":
        continue
    sys.stderr.write(m["message"].get("rendered") or "")
    for s in m["message"]["spans"]:
        if s.get("is_primary"):
            for f in primary(s):
                d, n = os.path.split(f)
                if os.path.basename(d) in ("hx", "gen") and n.endswith(".rs"):
                    bad.add(n)
                elif f.endswith("/src/main.rs") and not f.startswith("/verif"):
                    # the program, where the harness runs it
                    bad.add("app.rs")
print(" ".join(sorted(bad)))
