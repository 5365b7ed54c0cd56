#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
NOTE = ("Seeded sampling of simulated runs of the real, unmodified broker code (about 1000 runs/s; a quick check covers "
        "some 20-35 thousand runs, a thorough one 20 times as many); evidence, not proof. Trusted: the simulated "
        "libzmq/libcurl/threads, the reference model, preemption only at calls that leave the code under test.")
EXTRA = {
    "C20": " Here the real reactor runs with scripted handlers and peers instead of the broker's own.",
    "C22": " Every violation class counts in this property's own runs, because all limits derive from the configuration.",
    "C10": " Every violation class counts in this property's own runs: whatever well-behaved peers lose is a disruption.",
}
checks = []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    checks.append({
        "property": p,
        "quick_cmd": "python3 check.py %s quick" % p,
        "thorough_cmd": "python3 check.py %s thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": "deterministic simulation with fault injection (seeded schedules and faults, reference-model oracle)",
        "level": "exploration",
        "level_note": NOTE + EXTRA.get(p, ""),
    })
m = {"version": 1, "setup_cmd": "python3 build.py", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: all seams are taken below the code (libzmq, libcurl, libc/pthread entry points). "
              "./replay.sh FILE replays a violation."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
