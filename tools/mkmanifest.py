#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and the reasons below."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props

NA = {
    "N01": "A pure function of one codepoint: no schedule, clock, fault, I/O or shared state for a simulator to decide. What the tables depend on that does meet faults - the generator that reads and writes files - is claimed as C17-C19.",
    "N04": "Pure functions of one value.",
    "N05": "A pure function of one codepoint (the tables of N01, printed). What the tool does with damaged arguments and with faults of its output is claimed as C20.",
}
LEVEL = {}
NOTE = "Seeded search over simulated runs: evidence, not proof. Quick searches for a fixed time on 8 workers; every run is a pure function of (VERIF_SEED, index). Trusts the reference model written from the Unicode annexes and header documentation, and what 'assumptions' in the evidence lists. A violation is reported only after it repeats in two fresh processes, with a minimised plan as replay file."
TECH = {
    "C13": "deterministic simulation: real threads, one running at a time, released by a seeded scheduler at every intercepted memory access and lock",
}
NOTES = {}

def main():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
    checks, na = [], []
    for i in ids:
        if i in props.PROPS:
            checks.append({"property": i, "quick_cmd": "./check %s --tier quick" % i, "thorough_cmd": "./check %s --tier thorough" % i,
                           "evidence_file": "evidence/%s.json" % i,
                           "technique": props.PROPS[i].get("technique") or TECH.get(i, "deterministic simulation: seeded search over workloads, delivery schedules and faults against a reference model"),
                           "level": props.PROPS[i]["level"], "level_note": NOTES.get(i, NOTE)})
        else:
            na.append({"property": i, "reason": NA.get(i, "Check under construction.")})
    m = {"version": 1, "setup_cmd": "./setup.sh", "hooks": {"guard": "none", "enable": "No hooks in /repo: the seams are the library's own arguments and state objects, its allocator calls, compiler instrumentation, and link-time interposition of libc, all in /verif's builds.", "source_commits": []},
         "checks": checks, "not_applicable": na,
         "notes": "Deterministic simulation with fault injection; see DESIGN.md. Replay a reported violation with: ./check <ID> --replay <file>. Genuine defects found and repaired are listed in known-findings.txt."}
    with open(os.path.join(here, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")

main()
