#!/usr/bin/env python3
"""Writes MANIFEST.json from targets.CHECKS and the texts here; the properties without a check are listed as not applicable."""
import json
import os
import sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from targets import CHECKS  # noqa: E402

EXPL = "bounded exhaustive exploration of the real code (explicit-state enumeration in parallel worker processes) against a reference model"
TECH = {
    "C12": "stateless model checking of the real code: all interleavings up to a preemption bound under a controlled scheduler with happens-before race detection",
    "C27": "stateless model checking of the real code: all interleavings up to a preemption bound under a controlled scheduler with happens-before race detection",
    "C29": "stateless model checking of the real code: all interleavings up to a preemption bound under a controlled scheduler with happens-before race detection",
    "C36": "bounded exhaustive exploration of the real code (every interleaving of the steps of two or three histories), and stateless model checking of schedules up to a preemption bound with happens-before race detection",
    "C37": "bounded exhaustive exploration of the real code (every pattern of traffic within the bounds, pumped), judging counted work",
}
TRUST = "; trusted: the reference model (harness/ref*.h), the exploration engine (harness/mc.h), clang and the sanitizers"
NOTE = {}
NA = {}


def main():
    props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in CHECKS:
            checks.append({
                "property": i,
                "quick_cmd": "python3 run_check.py %s" % i,
                "thorough_cmd": "python3 run_check.py %s --tier thorough" % i,
                "technique": TECH.get(i, EXPL),
                "level": CHECKS[i].get("level", "model_checking"),
                "level_note": CHECKS[i].get("note", "every case within the bounds printed in the evidence is executed on the code compiled from /repo and compared with the reference; nothing is claimed beyond the bounds") + TRUST,
            })
        else:
            na.append({"property": i, "reason": NA.get(i, "not built yet")})
    m = {"version": 1, "setup_cmd": "python3 run_check.py --setup", "checks": checks, "not_applicable": na,
         "notes": "no hooks in /repo; run_check.py builds from /repo's working tree into /verif/build; --replay FILE repeats a violation"}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(V, "MANIFEST.json"), "a").write("\n")


main()
