#!/usr/bin/env python3
"""Writes MANIFEST.json from sim/plan.json and properties.jsonl."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
plan = json.load(open(H + "/sim/plan.json"))
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
NA = {
    "C21": "Pure function of its input: no schedule, clock, I/O, fault or history for a simulator to control. The simulator's independent reference "
           "does recompute these results in every run (a wrong one is reported under the property whose check met it), but what decides "
           "conformance is the choice of inputs, not of schedules, so it is not claimed.",
    "C22": "Pure parsers of a byte string: no schedule, clock, I/O, fault or history for a simulator to control.",
}
m = {"version": 1, "setup_cmd": "python3 sim/build.py A", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in plan:
        q = plan[i]
        m["checks"].append({
            "property": i,
            "quick_cmd": "python3 check.py --prop %s --tier quick" % i,
            "thorough_cmd": "python3 check.py --prop %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": q.get("technique", "deterministic simulation with fault injection: seeded search over schedules, faults and histories"),
            "level": q["level"],
            "level_note": q.get("note", "Every run is checked while it goes and afterwards against an executable reference model; violations are "
                                "confirmed in a fresh process, minimised and replayable. Sampling, not enumeration: absence of a report is evidence, "
                                "not proof. Trusts the simulator's seams (threads, locks, heap, clock, entropy, file, identity) and its reference."),
        })
    else:
        m["not_applicable"].append({"property": i, "reason": NA[i]})
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
open(H + "/MANIFEST.json", "a").write("\n")
