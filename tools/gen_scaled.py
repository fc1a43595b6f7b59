#!/usr/bin/env python3
"""Writes copies of /repo's src/lzhuf.rs with smaller constants (nothing else
changed) for the claims that are decided over every coder state or every
message at a reduced size. Prints the rustc flags that switch them on."""
import os
import re
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G = f"{V}/build/gen"
os.makedirs(G, exist_ok=True)
VARIANTS = {
    "tree3": ({"N_CHAR": "3"}, "lzhuf_tree.rs"),
    "tree4": ({"N_CHAR": "4", "MAX_FREQ": "60"}, "lzhuf_tree.rs"),
    "tree5": ({"N_CHAR": "5", "MAX_FREQ": "30"}, "lzhuf_tree.rs"),
    "win": ({"N": "16", "F": "6"}, "lzhuf_win.rs"),
}


def main():
    src = open("/repo/src/lzhuf.rs").read()
    flags = []
    for name, (consts, harness) in VARIANTS.items():
        s = src
        ok = True
        for c, v in consts.items():
            s, n = re.subn(r"(?m)^(\s*(?:pub(?:\([a-z]+\))? )?const %s\s*:\s*u16\s*=)[^;]*;" % c, r"\g<1> %s;" % v, s)
            ok &= n == 1
        s, n = re.subn(r"\"/lzhuf\.rs\"", '"/%s"' % harness, s)
        ok &= n == 1
        p = f"{G}/lzhuf_{name}.rs"
        if not ok:
            print(f"gen_scaled: {name} not made: constants not found", file=sys.stderr)
            s = ""
        if not os.path.exists(p) or open(p).read() != s:
            open(p, "w").write(s)
        if ok and f"lzhuf_{name}.rs" not in sys.argv and harness not in sys.argv:
            flags.append(f"--cfg vscaled_{name}")
    print(" ".join(flags))


main()
