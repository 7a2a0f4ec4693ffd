#!/usr/bin/env python3
"""MANIFEST.json from properties.jsonl and the table of claimed properties."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, R)
from cv.props import ROOTS
NA = {
 "C26": "Convergence of ADMM is a limit statement about an unbounded iteration over the reals with an arbitrary linear solver; it is a theorem about the algorithm, not a contract on the functions. The per-step equations it would rest on are decided by C07/C08/C09/C13.",
 "C27": "Code generation is compiled out of the only configuration that builds here (OSQP_CODEGEN needs the QDLDL sources, which cannot be fetched), so there is no real code to put under contract.",
 "C28": "Adjoint derivatives are compiled out of the only configuration that builds here (OSQP_ENABLE_DERIVATIVES requires QDLDL).",
 "C29": "Asynchronous signal delivery: the contract verifier has no notion of a handler running between two instructions. That the flag is polled and reported is part of C11.",
}
TECH = "contract-based deductive verification of the C sources (VC generation over clang's AST, z3)"
NOTE = ("Every function the property rests on is verified against its contract from /repo's current source on every run, for all inputs and all "
        "iterations; functions listed under bounded_functions in the evidence are checked on small shapes only and not counted as proved. Reals instead of "
        "floating point, mathematical integers, partial correctness; C library and MKL by assumed contracts.")
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in ROOTS:
        checks.append({"property": i, "quick_cmd": "python3-vt -m cv.check %s --tier quick" % i, "thorough_cmd": "python3-vt -m cv.check %s --tier thorough" % i,
                       "technique": TECH, "level": "proof", "level_note": NOTE})
    else: na.append({"property": i, "reason": NA.get(i, "Not claimed yet: the contracts of the functions involved are not finished.")})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "No hooks: the sources are verified as they are; /repo commits are fixes only."}, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
