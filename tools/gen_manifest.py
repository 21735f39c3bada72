#!/usr/bin/env python3
"""writes MANIFEST.json from the property modules present"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
import importlib
checks, na = [], []
NOTE = "Every path of the real code within the bounds listed in DESIGN.md and in the evidence file, over symbolic inputs, randomness and faults; z3 decides feasibility and obligations. Trusted: clang's IR, the IR translator and the kernel/libc models (sampled traces and every counterexample are replayed against the native build)."
for p in props:
    i = p["id"]
    if os.path.exists(V + "/props/%s.py" % i.lower()):
        checks.append(dict(property=i, quick_cmd="VERIF_TIER=quick python3-vt check.py " + i, thorough_cmd="VERIF_TIER=thorough python3-vt check.py " + i,
                           evidence_file="evidence/%s.json" % i,
                           technique="symbolic execution of the LLVM IR of the real sources with SMT-decided (z3 QF_BV) paths and assertions, counterexamples replayed natively",
                           level="model_checking", level_note=NOTE))
    else:
        na.append(dict(property=i, reason="check under construction"))
m = dict(version=1, setup_cmd="python3-vt check.py --setup", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the checks compile /repo's sources unmodified to LLVM IR with the configuration macros named in each task.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json"))) if os.path.exists("/root/.vp/MANIFEST.schema.json") else None
print(len(checks), "claimed", len(na), "not")
