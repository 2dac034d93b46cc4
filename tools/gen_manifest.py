#!/usr/bin/env python3
"""Writes MANIFEST.json: one check for every property that has a harness."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = ("stateless model checking of the real code: every history within the "
        "bounds is executed on it and compared with a reference model")
TECH = {
    "C06": "stateless model checking: exhaustive enumeration of sequences of iterator operations on the real code against a model of iterator positions",
    "C11": "stateless model checking with a controlled clock: every way the clock can advance at each of its readings, for every state and operation",
    "C15": "stateless model checking: exhaustive enumeration of call sequences of wrapped functions against a model of the wrappers",
    "C16": "exhaustive fault enumeration: every operation after every history, failed at every allocation and every user-supplied operation it performs",
    "C19": "stateless model checking under address and undefined-behaviour sanitizers, with life-cycle-tracking keys and values",
}
NOTE = {
    "default": "Exhaustive within the stated bounds (listed per job in the evidence file): few keys and values, sizes up to some hundreds, single-threaded, clock under control of the harness. Trusts g++, libstdc++, and the reference model in harness/model.hpp.",
    "C16": "Exhaustive over fault positions for all histories within the bounds; one fault per execution. Trusts g++, libstdc++ and the consistency oracle in harness/c16.cpp.",
}
LEVEL = {"C16": "fault_enumeration"}

checks, missing = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)["id"]
    if not os.path.exists(os.path.join(HERE, "harness", p.lower() + ".cpp")):
        missing.append({"property": p, "reason": "no check has been built yet"})
        continue
    checks.append({
        "property": p,
        "quick_cmd": "python3 check.py " + p,
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": TECH.get(p, BASE),
        "level": LEVEL.get(p, "model_checking"),
        "level_note": NOTE.get(p, NOTE["default"]),
    })
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "python3 check.py --setup",
               "checks": checks, "not_applicable": missing}, f, indent=1)
    f.write("\n")
