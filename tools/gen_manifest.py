#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of built checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
built = open(V + "/tools/built.txt").read().split()
na = {
 "F01": "Field arithmetic is a pure sequential function of its operands: there is no schedule, time, I/O, randomness or other party for a simulator to control. A proof or an exhaustive/differential test decides it, not simulation.",
 "F02": "A statistical distance of a distribution is not a property of executions; no simulated run can violate or establish it.",
 "F03": "Hardness of lattice problems is not observable by running the code under any schedule or fault.",
}
notes = {
 "default": "Seeded exploration of simulated executions with fault injection against a math/big reference; samples, proves nothing about runs not made.",
}
tech = {
 "J01": "deterministic simulation: faulty network, crash/restart, completeness against Horner reference",
 "J02": "deterministic simulation: message tampering, mixing and replay by a simulated adversary",
 "J03": "deterministic simulation: Byzantine provers against the polynomial fixed by the commitment",
 "J04": "deterministic simulation: Byzantine provers with long openings against norms in math/big",
 "J05": "deterministic simulation: seeded thread schedules with race detection",
 "J06": "deterministic simulation: commit histories over copies, threads, crashes and restarts",
 "J07": "deterministic simulation: transcript observed through a hash seam under single-component message changes",
 "B01": "deterministic simulation: random circuits over faulty network and restarts against a relation model",
 "B02": "deterministic simulation: violating assignments against a relation model",
 "B03": "deterministic simulation: message tampering, mixing and replay by a simulated adversary",
 "B04": "deterministic simulation: transcript observed through a hash seam under single-component message changes",
 "B05": "deterministic simulation: Byzantine provers against a relation model",
 "B06": "deterministic simulation: seeded thread schedules and histories with race detection",
 "B07": "deterministic simulation: malformed messages and assignments injected into live sessions",
 "B08": "deterministic simulation: proof histories over crashes and restarts, blinding observed through hooks",
 "E01": "deterministic simulation: entropy failure and short reads injected at every read",
 "M01": "deterministic simulation: seeded thread schedules with race detection against math/big",
 "M02": "deterministic simulation: read histories, interleavings and restarts against a reference stream",
 "F04": "deterministic simulation: processes on a failing disk, crashes and reruns against a prime search of its own",
 "V01": "deterministic simulation: faulty streams and seeded worker schedules with race detection",
}
checks = []
nal = []
for p in props:
    i = p["id"]
    if i in built:
        checks.append({"property": i, "quick_cmd": f"bash check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {i}",
            "technique": tech[i], "level": "exploration", "level_note": notes.get(i, notes["default"])})
    else:
        nal.append({"property": i, "reason": na.get(i, "Check not built yet.")})
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "go build -overlay (no hook is committed in /repo)",
               "enable": "tools/instr instruments copies of /repo's sources and check.sh builds them with go build -overlay; without the overlay nothing changes",
               "source_commits": []},
     "checks": checks, "not_applicable": nal}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
