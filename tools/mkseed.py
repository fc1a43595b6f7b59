#!/usr/bin/env python3
"""usage: mkseed.py ID PROPERTY FILE(where the demo goes) < spec
spec: JSON-free; sections separated by lines '=== name': edits as '=== file PATH' then '--- ' old / '+++ ' new blocks."""
import sys, os, json, subprocess, tempfile, shutil
def make(id, prop, where, edits, demo, needs, breaks, extra=None):
    d = f"/verif/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="mkseed-")
    subprocess.check_call(["git", "clone", "-q", "/repo", t + "/r"])
    r = t + "/r"
    for f, a, b in edits:
        p = f"{r}/{f}"
        s = open(p).read()
        assert s.count(a) == 1, (id, f, s.count(a), a)
        open(p, "w").write(s.replace(a, b))
    open(f"{d}/patch.diff", "w").write(subprocess.check_output(["git", "-C", r, "diff"], text=True))
    shutil.rmtree(t)
    open(f"{d}/demo.rs", "w").write(demo)
    open(f"{d}/where", "w").write(where)
    shutil.copy("/verif/tools/demo_common.sh", f"{d}/demo.sh")
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
