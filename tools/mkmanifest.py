#!/usr/bin/env python3
"""writes MANIFEST.json from the registered checks and the reasons below"""
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, H)
sys.dont_write_bytecode = True
from checks import all as checks

TECH = "path-sensitive value-flow analysis (abstract interpretation) of the compiled MIR with loop closed forms; stated results compared by normal forms"
NOTE = ("Every path of the analysed functions is compared with the stated result for arbitrary inputs; loops are summarised by closed forms or fixpoints. "
        "Trusts rustc's MIR and the models of core/alloc/libipld/quick-protobuf calls. Obligations the normal forms cannot settle are counted as undecided in the evidence and raise no alarm.")
SPECIAL = {"P07": (
    "static effect analysis over the compiler's MIR: every body of the crate, every resolved callee, static and unsafe block is classified; "
    "a callee, static, ordered use of a hash table or raw pointer through which a result could depend on anything but the arguments is reported with its function and line",
    "decided for all inputs at once, from what the code can reach at all; callees in other crates are judged by their documented effect (by path), not by their bodies")}
NA = {
    "P34": "quantifies over whole runs of two composed machines (importer, reader) and over the CID-to-block store between them; the per-step parts are P01, P02, P20, P21, P28, P29. No static argument in reach composes them into byte equality.",
    "P35": "quantifies over whole imports: the shape of the final tree needs an inductive counting invariant of the stack of partially filled levels over arbitrarily many pushes, beyond the closed forms of this analysis. What a single step may do (which blocks a link block takes, how many, on which level) is P38.",
    "P36": "quantifies over sequences of builder operations and whole walks; the per-step parts are P16-P18 and P24-P26. A round trip over all histories has no static argument in reach.",
    "P37": "termination and memory bounds over caller-driven histories (a malicious cyclic DAG never ends): depends on the blocks the caller supplies, no static bound exists.",
}
claimed = sorted({p for _, ps, _ in checks.SPECS for p in ps} - set(NA) - set(sys.argv[1:]))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
na = [{"property": p["id"], "reason": NA.get(p["id"], "not claimed: no check that decides it has been finished")} for p in props if p["id"] not in claimed]
m = {"version": 1, "setup_cmd": "python3 --version && rustc +nightly --version",
     "checks": [{"property": p, "quick_cmd": "python3 run.py " + p, "thorough_cmd": "python3 run.py %s --thorough" % p,
                 "technique": SPECIAL.get(p, (TECH, NOTE))[0], "level": "other", "level_note": SPECIAL.get(p, (TECH, NOTE))[1]} for p in claimed],
     "not_applicable": na}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(claimed)
