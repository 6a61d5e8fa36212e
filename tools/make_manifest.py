#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json (run by hand; the output is committed)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODEL = "property-based testing: grammar-generated and systematically perturbed files against an independent reference model"
T = {
 "C01": "fuzzing: mutated, truncated, spliced and perturbed files; oracle: complete successful report within CPU and memory limits",
 "C02": "property-based testing: invariant between verdict, verbose and normal report on generated files",
 "C03": "property-based testing: grammar-generated conforming files must be accepted",
 "C04": "property-based testing: every cut point of generated valid files must be rejected",
 "C14": "property-based testing: round-trip of generated XML, UUID, URL and comment texts",
 "C15": "property-based testing: metamorphic insertion of unknown boxes",
 "C16": "property-based testing: metamorphic re-encoding of box lengths",
 "C17": "property-based testing: metamorphic change of options",
 "C18": "property-based testing of command-line runs: XML parser, schema and single-file report as oracles",
 "C19": "property-based testing of command-line runs on generated directory trees against a selection model",
 "C20": "property-based testing: MIX record recomputed from the properties of the same report",
 "C21": "stateful property-based testing: histories of analyses compared with isolated analyses",
 "C22": "property-based testing: generated names, paths and time stamps against the file system's own data",
 "C23": "fault injection with generated failures and batches against the documented failure report",
 "C24": "property-based testing: encode/decode round-trip of packet lengths",
 "C26": "schedule fuzzing: seeded thread interleavings at line granularity compared with isolated analyses",
 "C27": "metamorphic property-based testing of command-line runs: spelling, entry point, environment, output device",
 "C28": "metamorphic and model-based property-based testing: standard error against the warnings and boxes in the report",
 "C29": "metamorphic property-based testing: replacement of tile-part data",
 "C25": "differential property-based testing: memory-mapped against plain reading",
}
NOTE = {
 "C01": "No counterexample among the generated files; a CPU-time limit stands in for non-termination.",
 "C18": "No counterexample among the generated file lists; trusts expat, libxml2 and the single-file API. Deeply nested embedded XML is a known finding.",
 "C23": "All listed kinds of failure are injected at every position of generated batches; errors of the operating system are simulated.",
}
DEF = "No counterexample among the generated cases (counts and samples in the evidence file); trusts the oracle described in DESIGN.md."
MDEF = "No counterexample among systematic boundary sweeps and random cases; trusts the reference model jv/ref.py, written from the manual and the standard."
checks = []
for i in range(1, 30):
    p = "C%02d" % i
    checks.append({"property": p, "quick_cmd": "./check %s quick" % p, "thorough_cmd": "./check %s thorough" % p,
                   "technique": T.get(p, MODEL), "level": "fault_enumeration" if p == "C23" else "exploration",
                   "level_note": NOTE.get(p, DEF if p in T else MDEF)})
m = {"version": 1, "setup_cmd": "./setup", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo. Pure Python 3 (standard library, plus lxml for schema validation in C18). ./check ID quick --replay FILE reruns a replay file."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
