#!/usr/bin/env python3
"""Writes MANIFEST.json: manifest.py (run in /verif after a change of the plan)"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import plan  # noqa: E402

NA = {}
NOTE = {
    "P01": "a search for a serial order of every recorded history; the order the engine promises is tried first, then all others",
    "P12": "liveness is decided on finite histories: after the older transactions ended, a bounded number of background rounds must decide the commit",
    "P19": "the log store is a stand-in with limestone's documented durability behaviour; crashes are placed between calls and after any number of log operations inside a call",
    "P20": "as P19; markers are compared with what a crash at once afterwards keeps",
    "P22": "histories with and without background work are compared, records left after the collector had time are counted, memory use is watched by address and undefined behaviour sanitizers",
}


def main():
    ids = [json.loads(line)["id"] for line in open(os.path.join(HERE, "properties.jsonl"))]
    checks = []
    na = []
    for i in ids:
        if i not in plan.PLAN:
            na.append({"property": i, "reason": NA[i]})
            continue
        p = plan.PLAN[i]
        models = sorted({m["spec"] for m in p.get("models", [])})
        fams = [f["name"] for f in p["families"]]
        tech = "TLA+/TLC: "
        if models:
            tech += "model checking of %s; " % ", ".join(models)
        tech += "TLC-generated client programs replayed into the engine, every recorded history checked against %s.tla" % p["spec"]
        note = ("TLC decides every recorded history of the real engine (built from the working tree) against the specification; "
                "exhaustive only for the models named, sampled by seeded TLC simulation for the programs. Families: %s." % "; ".join(fams))
        if i in NOTE:
            note += " " + NOTE[i][0].upper() + NOTE[i][1:] + "."
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s" % i,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": tech,
            "level": "model_checking",
            "level_note": note,
        })
    m = {
        "version": 1,
        "setup_cmd": "python3 build.py h1 h1 harness/h1.cpp && python3 build.py h2 h2 harness/h1.cpp harness/sched.cpp && python3 build.py h3 h3 harness/h1.cpp",
        "checks": checks,
        "not_applicable": na,
        "notes": "No hooks in /repo: the harness compiles the sources of the working tree against stand-ins for the index and the log store (build.py). "
                 "Findings on the unchanged tree and their repairs are in known-findings.txt; see DESIGN.md.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
