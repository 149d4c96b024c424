#!/usr/bin/env python3
"""Writes MANIFEST.json from the plan and the properties."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
from plan import PLAN
TECH = {
    "C05": "offline checking of recorded batch results against an exhaustive model, under many pools, schedules and injected delays",
    "C07": "invariant monitor that walks the live tree",
    "C08": "differential runtime monitoring of builds under many schedules, with injected delays",
    "C09": "fault injection (non-finite values) with a monitor on the errors returned",
    "C10": "fault injection (bad boxes) with a monitor on the verdicts returned",
    "C11": "AddressSanitizer, MemorySanitizer, Miri and checked unsafe preconditions under hostile call sequences",
    "C12": "ThreadSanitizer (instrumented std) and Miri's race detector under concurrent workloads",
    "C13": "panic, crash and stack-depth monitors under extreme workloads",
    "C14": "structural monitors plus operation counting by an instrumented scalar",
    "C15": "runtime monitoring against an exhaustive model in every feature configuration",
    "C16": "runtime monitoring of the Python module against an exhaustive model, also under AddressSanitizer",
    "C17": "fault injection through the Python module with a monitor on exceptions and process survival, also under AddressSanitizer",
    "C18": "lifetime monitor of the Python module: memory reuse after drops, weak references, AddressSanitizer",
    "C19": "recorded histories of concurrent queries checked offline against a sequential model",
    "C20": "runtime monitoring of the primitives against exact arithmetic",
    "C21": "operation counting by an instrumented scalar type",
    "C22": "allocation monitor (counting global allocator)",
}
LEVEL = "Held on the executions observed (their number and kinds are in the evidence), never beyond them. Trusts the harness's oracle and its tolerance of a few roundings."
checks = []
for l in open(os.path.join(V, "properties.jsonl")):
    i = json.loads(l)["id"]
    if i in PLAN:
        checks.append({
            "property": i,
            "quick_cmd": f"python3 bin/check.py {i}",
            "thorough_cmd": f"env VERIF_TIER=thorough python3 bin/check.py {i}",
            "technique": "runtime monitoring and sanitizers: " + TECH.get(i, "online comparison of every answer with an exhaustive model"),
            "level": "exploration",
            "level_note": LEVEL,
        })
json.dump({
    "version": 1,
    "setup_cmd": "python3 bin/setup.py",
    "checks": checks,
    "not_applicable": [],
    "notes": "No hooks in /repo: the checks observe the crate through its public API, through a scalar type of their own and through the global allocator. thorough_cmd sets VERIF_TIER=thorough.",
}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
