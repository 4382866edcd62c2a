#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
TECH = {
    "numbers": "TLA+ specification (exact rational beam/truss theory) evaluated by TLC; traces of scenarios driven through the real API validated against it",
    "api": "TLA+ state machine of the API; TLC-generated and random call histories driven through the real API, traces validated by TLC",
    "io": "TLA+ specification of the input language evaluated by TLC on recorded parse/solve traces of generated and mutated documents",
    "poly": "TLA+ specification of the operation evaluated by TLC on recorded calls with generated arguments",
    "conc": "TLA+ state machine of the API; traces of concurrent goroutines validated by TLC, run under the race detector",
}
CHECKS = {
    "C01": ("numbers", "exact displacements of bounded structures"),
    "C02": ("numbers", "exact solutions of structures with prescribed displacements"),
    "C03": ("numbers", "exact reactions"),
    "C04": ("numbers", "exact internal force functions"),
    "C05": ("numbers", "exact displacement functions"),
    "C06": ("numbers", "exact solutions of structures with hinges, refusal of the others"),
    "C07": ("numbers", "exact solutions of structures with inclined supports"),
    "C08": ("api", "histories of adding and removing element loads"),
    "C09": ("numbers", "load cases, combinations, multiples"),
    "C10": ("numbers", "pairs of descriptions of the same structure"),
    "C11": ("api", "layouts, order of equations, dimensions"),
    "C12": ("api", "dangling references between correct calls"),
    "C13": ("numbers", "stable and unstable structures"),
    "C14": ("api", "histories of solves with shared objects"),
    "C15": ("io", "valid documents"),
    "C16": ("io", "mutated documents"),
    "C17": ("numbers", "form of interpolations"),
    "C18": ("poly", "piecewise polynomials"),
    "C19": ("poly", "cross sections"),
    "C20": ("conc", "concurrent work on shared objects"),
    "C21": ("poly", "expectations on results that hit and miss them"),
}
NOTE = ("Decides %s: TLC evaluates every clause of the specification on every call of every trace recorded from the code under test. "
        "Bounded by the scenarios generated (see evidence); trusts TLC, the exact rational arithmetic override (java/Rat.java, itself checked by spec/RatTest.tla), "
        "the driver's recording, and tolerances for floating point results stated in spec/Deflect.tla.")
m = {
    "version": 1,
    "setup_cmd": "./check setup",
    "checks": [{"property": p, "quick_cmd": "./check %s quick" % p, "thorough_cmd": "./check %s thorough" % p,
                "evidence_file": "evidence/%s.json" % p, "technique": TECH[k], "level": "model_checking", "level_note": NOTE % what}
               for p, (k, what) in sorted(CHECKS.items())],
    "not_applicable": [],
    "notes": "No hooks in /repo: the public API exposes all that is observed. Known findings: known-findings.txt. See DESIGN.md.",
}
json.dump(m, open(os.path.join(HERE, "..", "MANIFEST.json"), "w"), indent=1)
