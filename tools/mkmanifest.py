#!/usr/bin/env python3
"""Writes MANIFEST.json: mkmanifest.py [ids built]; all properties by default."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
built = sys.argv[1:] or [p["id"] for p in props]
sched = {"C03", "C04", "C11", "C12", "C17", "C23", "C25", "C30", "C31", "C33"}
note_s = ("Every interleaving of the enumerated small programs is run on the real, build-time instrumented code under a "
          "cooperative scheduler; judged by race detector, panic, deadlock and linearizability monitors. Bounded: number of "
          "goroutines, operations per goroutine and prologues as given in the evidence; trusts the scheduler, the lock shims "
          "and the reference model. Scheduling points are lock, atomic and clock operations (data races between them are "
          "reported as violations themselves).")
note_q = ("Every operation sequence, reachable state or input within the bounds given in the evidence is run on the real code "
          "and compared step by step with an independent reference model; nothing is sampled. Trusts the reference model, "
          "the virtual clock and the controlled map order.")
checks = []
for p in props:
    i = p["id"]
    if i not in built:
        continue
    checks.append({
        "property": i,
        "quick_cmd": "bash run.sh " + i,
        "thorough_cmd": "env VERIF_TIER=thorough bash run.sh " + i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "stateless model checking of the real code: exhaustive schedules under a controlled scheduler" if i in sched
        else "explicit-state bounded model checking: exhaustive histories/inputs on the real code against a reference model",
        "level": "model_checking",
        "level_note": note_s if i in sched else note_q,
    })
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": "check not built yet"} for p in props if p["id"] not in built],
     "notes": "No hooks in /repo: instrumentation is generated at build time and delivered with go build -overlay. "
              "Replay of a violation: bash run.sh <id> -replay=<path>."}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
open(here + "/MANIFEST.json", "a").write("\n")
