#!/usr/bin/env python3
"""Writes MANIFEST.json from the targets: a property is claimed when some target decides it."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import run
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
by = {}
for t in run.load_targets():
    for e in t.entries.values():
        for p in t.props(e):
            by.setdefault(p, []).append((t, e))
NA = {
 "C32": "Termination/liveness: the contracts reachable with CBMC are partial-correctness contracts; decreases clauses cannot cover external commands, and no safety obligation expresses the property.",
 "C33": "Two processes interleaving through the file system: no contract on a single-process C program expresses it, and the code contains no locking whose protocol could be put under contract.",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in by and i not in NA:
        proofs = [e for _, e in by[i] if e.get("mode", "proof") == "proof"]
        bounded = [e for _, e in by[i] if e.get("mode", "proof") != "proof"]
        lvl = "proof" if proofs else "exploration"
        note = "%d entry obligations sets discharged for all inputs (CBMC contracts), %d bounded stand-ins (labelled, not counted as proved). " % (len(proofs), len(bounded)) \
            if proofs else "Bounded stand-ins only: no function of this property is within reach of the unbounded proof; every harness is exhaustive up to its stated bound. "
        note += "Assumes: allocation succeeds; external functions as their stated contracts; see assumptions in the evidence file and DESIGN.md."
        checks.append({"property": i, "quick_cmd": "python3 run.py check %s --tier quick" % i,
                       "thorough_cmd": "python3 run.py check %s --tier thorough" % i,
                       "technique": "contract-based deductive verification of the real C (CBMC DFCC function/loop contracts)" +
                       (" + bounded checks of the same contracts for the rest" if bounded and proofs else "") if proofs else
                       "bounded check of the functions' contracts (harness pre/postconditions on the real C)",
                       "level": lvl, "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "no contract check has been built for it yet")})
m = {"version": 1, "setup_cmd": "python3 run.py selftest", "checks": checks, "not_applicable": na,
     "notes": "No hooks are needed: contracts are attached to a copy of /repo's current sources on every run (lib/prep.py)."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
