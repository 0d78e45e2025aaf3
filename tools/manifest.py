#!/usr/bin/python3
"""Writes MANIFEST.json from the rule modules present."""
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
}
PENDING = "no check written yet"
TECH = "static analysis: path-sensitive abstract interpretation of /repo's syntax trees (trace partitioning, bounded), judging "
WHAT = {
    "C01": "dependency gating and value provenance of step evaluations on every path",
    "C02": "schedule-independence of abstract results over all task interleavings of the modelled event loop",
    "C03": "the outcome-lattice tables of the combine functions and their callers",
    "C04": "the effect (API mutation) sequence of repeated passes",
    "C05": "the effect sequence after every abstract perturbation of the live object",
    "C06": "payload/address provenance on every path to a create or patch",
    "C07": "the API effects reachable under each mode",
    "C08": "payload shape and owner-reference flow on every path to a create or patch",
    "C09": "exception/cancellation containment at every API call site",
    "C10": "error-value discipline: every expression result is checked before it flows on",
    "C11": "the literal encoder over a partition of the string domain by character class",
    "C12": "overlay index/apply against a deep-merge specification, and heap-write (purity) effects",
    "C13": "the decision table of predicate lists and the effects gated by it",
    "C14": "the reference extractor over every production of the expression grammar, and the watch sets",
    "C15": "cache state transitions on every path",
    "C16": "cache/registry typestate over every interleaving of offers, deletes and notifications within bounds",
    "C17": "registry invariants preserved by every operation from every bounded state",
    "C18": "state flow between test cases (isolation) and heap-write effects",
    "C19": "the verdict tables of the assertion validators",
    "C20": "exception escape and schema-gate dominance in every prepare function",
}
props = [json.loads(l) for l in open(f"{ROOT}/properties.jsonl")]
have = {f[:-3].upper() for f in os.listdir(f"{ROOT}/sa/rules") if re.fullmatch(r"c\d\d\.py", f)}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        checks.append({
            "property": i, "quick_cmd": f"/opt/venv/bin/python check.py {i}", "thorough_cmd": f"/opt/venv/bin/python check.py {i} --thorough",
            "evidence_file": f"evidence/{i}.json", "technique": TECH + WHAT[i], "level": "other",
            "level_note": NOTE.get(i, "Decides every abstract path of the listed scenarios (finite partition of inputs, states and schedules; bounds in the evidence); "
                                      "libraries are summarised, paths that can not be modelled are counted as undecided and never reported."),
        })
    else:
        na.append({"property": i, "reason": PENDING})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -c \"import sys; sys.path.insert(0, '.'); import sa.report\"", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. The checks read /repo/src and the bundled CRDs; nothing of koreo is imported or executed."}
json.dump(m, open(f"{ROOT}/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not claimed")
