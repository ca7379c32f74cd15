#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and props.py."""
import json
from props import PROPS

NA = {
    "C20": "a pure function of its operands: no schedule, clock, fault or interleaving for a simulation to decide"
           " (the arithmetic is exercised inside C01 and C02)",
    "C21": "decided by the compiler at compile time: nothing runs that a simulator could schedule or fault",
    "C22": "a pure function of its operands: no schedule, clock, fault or interleaving",
    "C23": "a property of macro-generated types, fixed at compile time: nothing to schedule or fault",
    "C24": "a static JSON schema compared with pure serialization results: no schedule, clock, fault or I/O",
    "C25": "a pure function of its operand: no schedule, clock, fault or interleaving (exercised inside C01)",
}
NOTE = ("Seeded sampling of simulated executions: a clean run is evidence over the runs the evidence file counts,"
        " not proof. Trusts the reference model in /verif/model, the simulated environment, rustc and the"
        " dependency crates.")
ids = [json.loads(l)["id"] for l in open("properties.jsonl") if l.strip()]
checks, na = [], []
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        checks.append({
            "property": i,
            "quick_cmd": f"python3 run.py check --prop {i}",
            "thorough_cmd": f"python3 run.py check --prop {i} --tier thorough",
            "technique": p.get("technique", "deterministic simulation with fault injection: seeded search over"
                               " schedules and fault sequences, checked against a reference model"),
            "level": "exploration",
            "level_note": p.get("note", "") + NOTE,
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump({
    "version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": na,
    "notes": "Driver: run.py. No hooks are needed in /repo: every seam used is public API (readers, writers,"
             " sinks, (de)serializers, the global allocator). 'python3 run.py replay FILE' re-executes a replay"
             " file; 'python3 run.py determinism' compares event logs across processes.",
}, open("MANIFEST.json", "w"), indent=1)
