#!/usr/bin/env python3
"""Writes MANIFEST.json from spec.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import spec
ids = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
m = {
    "version": 1,
    "setup_cmd": "tools/build_engine.sh && tools/build_harness.sh",
    "hooks": {
        "guard": "plusendi_verif",
        "enable": "RUSTFLAGS=--cfg plusendi_verif, with PLUSENDI_VERIF_HARNESS=/verif/harness/in_crate (tools/build_harness.sh)",
        "source_commits": ["8fc610c"],
    },
    "checks": [],
    "not_applicable": [],
    "notes": "symir (engine/) executes the LLVM IR of the real crate symbolically and decides every claim with Z3; see DESIGN.md",
}
for i in ids:
    p = spec.PROPERTIES.get(i)
    if p:
        m["checks"].append({
            "property": i,
            "quick_cmd": f"python3 check.py {i} quick",
            "thorough_cmd": f"python3 check.py {i} thorough",
            "technique": "solver-based symbolic execution of the compiled crate's LLVM IR (Z3), counterexamples replayed natively",
            "level": "model_checking",
            "level_note": "Every claim decided by Z3 for all values within: " + p["bounds"],
        })
    else:
        m["not_applicable"].append({"property": i, "reason": spec.NOT_APPLICABLE.get(i, "not covered by a check yet")})
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
