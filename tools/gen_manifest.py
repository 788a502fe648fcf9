#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and configs.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
import configs
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in configs.QUICK:
        checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i, evidence_file="evidence/%s.json" % i,
            technique="symbolic execution of the compiled LLVM bitcode with SMT (z3, cvc5) decisions per path, counterexamples replayed natively",
            level="model_checking",
            level_note="Every input within the stated bounds is decided by the solver on the real code (bounds: evidence file, DESIGN.md). Nothing is claimed outside them. Trusts rustc's bitcode, the executor's instruction semantics (cross-validated against native runs on every check) and the solvers."))
    else: na.append(dict(property=i, reason=configs.NOT_APPLICABLE[i]))
m = dict(version=1, setup_cmd="python3 check.py --setup",
    hooks=dict(guard="cfg(phoenix_verif)", enable="RUSTFLAGS=--cfg phoenix_verif (set by check.py when it builds the harness)", source_commits=["7bdfc16"]),
    checks=checks, not_applicable=na, notes="fix: commits in /repo and what they repaired are listed in known_findings.txt.")
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
print(len(checks), len(na))
