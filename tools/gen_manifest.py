#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one check per property that has a harness."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {}
checks = []
na = []
for p in props:
    i = p["id"]
    if glob.glob(V + "/harness/%s_*.cpp" % i):
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s --tier quick" % i,
            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "technique": "symbolic execution of the compiled (LLVM bitcode) sparrow sources with Z3 against a reference model, native replay of counterexamples",
            "level": "model_checking",
            "level_note": "Bounded: holds for every value of the symbolic inputs within the shapes listed in evidence coverage.entries[].bounds. Trusts clang's lowering, the executor in engine/, the runtime stubs in engine/runtime and Z3; sampled paths are replayed natively against the real code on every run.",
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "make -s -j8 -C engine", "checks": checks, "not_applicable": na,
           "notes": "Solver-based checking of the real code; see DESIGN.md. No hooks are needed in /repo: the contract-failure action is overridden from a pre-included header."},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
