#!/usr/bin/env python3
"""Writes MANIFEST.json from run/props.py and properties.jsonl."""
import json
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "run"))
import props  # noqa: E402

ids = [json.loads(l)["id"] for l in open(os.path.join(VERIF, "properties.jsonl"))]
hooks = subprocess.run(
    ["git", "-C", "/repo", "log", "--format=%h", "--grep", "simulation builds"],
    stdout=subprocess.PIPE, text=True).stdout.split()
m = {
    "version": 1,
    "setup_cmd": "python3 run/build.py",
    "hooks": {
        "guard": "REVERB_SIMULATION",
        "enable": "run/build.py compiles /repo with "
                  "-DREVERB_SIMULATION=1",
        "source_commits": hooks,
    },
    "checks": [],
    "not_applicable": [],
    "notes": "run/check.py builds the simulator from /repo's working tree "
             "into build/ (git-ignored) and searches; replays are run with "
             "build/simrun --replay FILE.",
}
for i in ids:
    if i in props.SCENARIOS:
        m["checks"].append({
            "property": i,
            "quick_cmd": "python3 run/check.py %s quick" % i,
            "thorough_cmd": "python3 run/check.py %s thorough" % i,
            "technique": "deterministic simulation with fault injection: "
                         "seeded search over schedules and faults",
            "level": props.LEVEL.get(i, "exploration"),
            "level_note": props.NOTE.get(i, props.DEFAULT_NOTE),
        })
    else:
        m["not_applicable"].append({
            "property": i,
            "reason": props.NOT_APPLICABLE.get(
                i, "the scenario that decides it is not finished yet"),
        })
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
