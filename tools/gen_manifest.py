#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
tech = {
    "F": "runtime monitoring: the real program instructions run against randomized, hostile and stress histories; an online monitor judges every event against an executable specification",
    "A": "runtime monitoring: the real program instructions run against randomized, hostile and stress histories; an online monitor judges every event against an executable specification with exact integer arithmetic",
    "X": "runtime monitoring: byte-for-byte diff of all accounts around every instruction of both programs, judged against the documented effects",
}
special = {
    "F03": "runtime monitoring: differential oracle (exact rational integral over recorded snapshots and periods) on every settlement",
    "F04": "runtime monitoring: twin histories with and without extra updates, plus slot-accounting shadow ledger",
    "F06": "runtime monitoring: global conservation ledger per harvest mint, and settle-and-claim-all probes on copies of reached states",
    "F02": "runtime monitoring: bounded-progress probes (full unstake) on copies of reached states",
    "A10": "runtime monitoring: bounded-progress probes (everybody redeems, then a new first deposit) on copies of reached states",
}
note = ("Held on the executions listed in the evidence (counts of histories, instructions and judgements), not proved. "
        "Trusts the minimal runtime of the harness, the model of the system program, the real SPL token processor, and the stand-in for the missing `decimal` crate; see DESIGN.md.")
checks = []
for l in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    checks.append({
        "property": i,
        "quick_cmd": "./check.sh %s" % i,
        "thorough_cmd": "VERIF_TIER=thorough ./check.sh %s" % i,
        "technique": special.get(i, tech[i[0]]),
        "level": "exploration",
        "level_note": note,
    })
m = {
    "version": 1,
    "setup_cmd": "./check.sh build",
    "checks": checks,
    "not_applicable": [],
    "notes": "No hooks were needed in /repo: the harness drives the public entrypoints and reads accounts. The fix: commits in /repo are listed in known-findings.txt.",
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
