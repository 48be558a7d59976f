#!/usr/bin/env python3
"""Writes MANIFEST.json from the claimed checks."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "an"))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {
    "P20": "numeric: equality of filter outputs with real-valued weighted sums (float rounding, histogram updates over pixel contents) quantifies over runtime values; the structural clauses (sizes, ranges, parallel = sequential, kernels, documented compositions) are claimed under P01, P03, P07, P09, P11, P15",
    "P21": "numeric: optimality of the two-pass and parabola-envelope algorithms is an inductive claim about pixel contents; no dataflow or shape argument in reach decides it",
    "P22": "a partition claim about the history of union-find merges over image contents; structural parts (union-find stays in range, result size, termination) are claimed under P01, P07, P13",
    "P23": "geometric optimality and float tolerance over arbitrary point sets; not decidable from the code's shape",
    "P24": "corner scores, gradient histograms, hashes, Hough peaks and detections as published: numeric equality over image contents through several stages; the closed formulas (template scores, statistics, thresholds, Haar features) are claimed under P17, structural clauses (sizes, ranges, purity, wrapper forwarding) under other properties",
    "P25": "statistical claim about random draws; only seededness (P02) is structural",
    "P26": "optimality of a dynamic programme over pixel contents; structural parts (size, range) are claimed under P07 and P09",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "an/checks", i.lower() + ".py")) and i not in NA:
        m = importlib.import_module("checks." + i.lower())
        checks.append({
            "property": i,
            "quick_cmd": f"python3 an/check.py {i}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 an/check.py {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": getattr(m, "SHORT", m.TECHNIQUE)[:300],
            "level": m.LEVEL,
            "level_note": m.TECHNIQUE + ". Trusted: " + "; ".join(m.TRUSTED) + (". Assumes: " + "; ".join(m.ASSUMPTIONS) if m.ASSUMPTIONS else ""),
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "python3 an/warm.py", "checks": checks, "not_applicable": na,
           "notes": "All checks analyse the MIR of /repo's current tree, dumped by a rustc driver (driver/) that is built by setup_cmd and rebuilt on demand."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
