#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ("Every recorded call of the generated histories is a step of the TLA+ specification (TLC trace validation); a refused step is run again on the "
        "real code before it is reported. Assumes the specification states the documented meaning; covers the generated inputs of the run, not all inputs.")
EXTRA = {
    "C18": " Runs with the race detector; schedules are those the runtime produced.",
    "C21": " The meaning of the queries is that of the specification's query evaluator; no database server is available offline.",
}


def main():
    props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
    checks = []
    for p in props:
        cmd = "python3 bin/check.py " + p["id"]
        checks.append({"property": p["id"], "quick_cmd": cmd, "thorough_cmd": cmd, "evidence_file": "evidence/%s.json" % p["id"],
                       "technique": "TLA+ specification, TLC trace validation of histories run on the real code",
                       "level": "model_checking", "level_note": NOTE + EXTRA.get(p["id"], "")})
    m = {"version": 1, "setup_cmd": "bash bin/setup.sh", "checks": checks,
         "hooks": {"guard": "verif", "enable": "no hooks were needed: the checks use the exported API through an overlay package", "source_commits": []},
         "not_applicable": [], "notes": "See DESIGN.md. Each check builds its own driver from the working tree of /repo."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
