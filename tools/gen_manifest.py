#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "make -C /verif -j8", "checks": [], "not_applicable": []}
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i, "technique": "bounded symbolic execution of the LLVM bitcode of /repo's sources, decided by Z3; counterexamples replayed natively",
            "level": "model_checking",
            "level_note": "Every path of the real code within the bounds is explored symbolically and the solver decides each assertion. Quick: %s Thorough: %s Trusts: %s" % (c["bounds"][0], c["bounds"][1], " ".join(c.get("assumptions", [])) or "the executor and library models (validated by native replay of solver models on every run).")})
    else: m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check yet (in progress)")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); print(len(m["checks"]), "checks", [x["property"] for x in m["not_applicable"]])
