#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(here + '/properties.jsonl')]
NOTE = ("Every obligation of the functions under contract that the property depends on is generated from /repo's current "
        "source and discharged for all inputs; callers are checked against the contracts of their callees. Trusted: the "
        "verifier jv, its models of the standard library and of the runtime's layouts, x/tools ssa, the SMT solvers. "
        "The battery that runs next to the proofs is a bounded search for a failing input and counts for nothing in the proof. ")
EXTRA = {
 'P24': ("Races are decided by ownership: every write of every function is proved to reach memory that the call owns, every access to "
         "a package variable that is written after initialisation goes through sync/atomic, sync.Map or sync.Pool, what is reachable "
         "from a cache or captured by an instruction is never written again, what is given to a pool is never used again, the "
         "placeholder of a type under construction reads only after its WaitGroup, that is always released, and the building of an instruction never waits. "
         "That these obligations imply the absence of races and deadlocks is the (paper) argument of DESIGN.md. "
         "The battery is built with the race detector."),
}
NA = {}
exec(open(here + '/tools/manifest_data.py').read())
checks = [{
    "property": i,
    "quick_cmd": "bash check.sh " + i,
    "thorough_cmd": "bash check.sh " + i,
    "technique": "contract-based deductive verification: weakest-precondition-style obligations from the SSA of the real code, discharged by SMT solvers",
    "level": "proof",
    "level_note": NOTE + EXTRA.get(i, ""),
} for i in ids if i not in NA]
m = {
 "version": 1,
 "setup_cmd": "bash tools/setup.sh",
 "checks": checks,
 "not_applicable": [{"property": i, "reason": NA[i]} for i in ids if i in NA],
 "notes": "No hooks in /repo: contracts live in /verif/contracts and are bound to the functions by name and signature.",
}
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1)
