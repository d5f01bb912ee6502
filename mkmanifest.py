#!/usr/bin/env python3
"""Writes MANIFEST.json from the configuration (run after adding a check)."""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V + "/harness")
from config import CONFIG
TECH = {
    "C02": "property-based testing: generated programs of several units, compiled, linked and run, against known values",
    "V01": "stateful (model-based) property testing over histories of positions, with shrinking",
    "I01": "property-based testing: generated plans of calls over the life of a process, carried out by a program built with the library, against a reference model",
    "E02": "property-based testing over user-defined encodings and storages against an independent reference model",
    "K01": "property-based testing under eleven builds (compilers, optimization, instruction set, sign of char, initial memory) against an independent reference model",
    "M01": "property-based testing with injected faults (every early allocation failing, throwing callbacks) against a reference model",
    "L01": "property-based testing: counted work and processor time over generated texts of growing length",
    "L03": "property-based testing: every unit looked at is recorded, for generated texts amid much longer ones, against a model of what surrounds a place",
    "Q01": "property-based testing: generated pairs of integers (all edges enumerated), the integers themselves as the model",
    "H01": "property-based testing: generated places in texts of 4 Gi units, independent model of the place, whole passes against a closed form",
    "L02": "property-based testing: allocations counted and stack painted, metamorphic relation between a text and the same repeated",
    "K02": "property-based testing: generated texts in generated states of a process closed to system calls, independent model",
    "T01": "property-based testing: generated call histories and threads, metamorphic oracle, thread sanitizer",
    "T02": "property-based testing: the library called again from generated places inside its own calls, independent model",
    "S03": "stateful (model-based) property testing over operation histories, with shrinking",
    "N05": "property-based testing: metamorphic relations under generated equivalence rewrites",
    "E01": "differential property-based testing between encodings and storages",
    "C01": "property-based testing: generated programs, compiled, against a typing model",
    "X01": "property-based testing: generated Unicode databases against an independent table builder",
    "X03": "property-based testing with injected faults: failing files under the table generators, against their own faultless run",
    "X02": "property-based testing: generated arguments to the compiled examples, against a reference model",
}
checks = []
for line in open(V + "/properties.jsonl"):
    i = json.loads(line)["id"]
    if i not in CONFIG:
        continue
    c = CONFIG[i]
    kinds = c.get("builds", ["plain", "asan"])
    fuzz = c.get("fuzz", True) and "module" not in c
    tech = TECH.get(i, "property-based testing with exhaustive small cases, structured random generation and shrinking against an independent reference model")
    if fuzz:
        tech += "; coverage-guided fuzzing (libFuzzer) of the same property in the thorough tier"
    checks.append({
        "property": i, "quick_cmd": "python3 run.py %s quick" % i, "thorough_cmd": "python3 run.py %s thorough" % i,
        "technique": tech, "level": "exploration",
        "level_note": c.get("note", "Bounded: enumerated small cases completely, larger ones by sampling; builds: %s." % ", ".join(kinds)),
    })
have = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
missing = [i for i in have if i not in CONFIG]
json.dump({"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks,
           "not_applicable": [{"property": i, "reason": "its check is still being built"} for i in missing]},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks; missing", missing)

# what /repo is written with now, see literals() in run.py
sys.path.insert(0, V)
import run
open(V + "/harness/numbers.txt", "w").write(" ".join(str(v) for v in sorted(run.all_numbers())) + "\n")
