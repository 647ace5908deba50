#!/usr/bin/env python3
"""Writes MANIFEST.json from registry.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from registry import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in PROPS:
        continue
    p = PROPS[i]
    checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
        technique="symbolic execution of the rustc LLVM IR of the real code, assertions decided by Z3",
        level="model_checking",
        level_note="Every input within the stated bounds, decided by the solver; counterexamples and sampled path models are replayed natively. Bounds: "
                   + (p.get("bounds") or "; ".join(h["name"] + ": " + h["bounds"] for h in p["harnesses"] if h.get("bounds")) or "see DESIGN.md")
                   + ". Trusts rustc's IR, the engine in symex/ and Z3."))
na = [dict(property=i, reason=NOT_APPLICABLE.get(i, "no check built yet")) for i in ids if i not in PROPS]
json.dump(dict(version=1, setup_cmd="python3 check.py --build", checks=checks, not_applicable=na,
    notes="The checks drive the public interface of the crate; there are no hooks in /repo. Known findings: KNOWN_FINDINGS.txt."),
    open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
