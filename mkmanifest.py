#!/usr/bin/env python3
"""Writes MANIFEST.json (and the bounds in DESIGN.md) from plan.py and properties.jsonl."""
import json, os
import plan
here = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
NA = {}
note = ("Bounded: %s Within those bounds the SAT solver refuted every violation (assertion, panic, out-of-bounds access) "
        "for all values of the inputs; a counterexample is reported only after it failed natively on the real crate. "
        "Trusted: the engine in /verif/engine, the memchr and allocator models, rustc's IR; nothing is claimed outside "
        "the bounds.")
m = {
    "version": 1,
    "setup_cmd": "./check --setup",
    "checks": [{
        "property": i,
        "quick_cmd": "./check %s quick" % i,
        "thorough_cmd": "./check %s thorough" % i,
        "technique": "bounded symbolic execution of the crate's LLVM IR, decided by SAT, counterexamples replayed natively",
        "level": "model_checking",
        "level_note": note % plan.PROPS[i]["bounds"],
    } for i in ids if i not in NA],
    "not_applicable": [{"property": i, "reason": r} for i, r in NA.items()],
    "notes": "See DESIGN.md. Evidence lists the functions encoded, bounds, runs, queries and solver time of the last run.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)

# The bounds quoted in DESIGN.md.
p = os.path.join(here, "DESIGN.md")
out = []
for line in open(p):
    if line[:3] == "**C" and " Bounds: " in line:
        line = line[:line.index(" Bounds: ")] + " Bounds: " + plan.PROPS[line[2:5]]["bounds"] + "\n"
    out.append(line)
open(p, "w").writelines(out)
