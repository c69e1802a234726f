#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: builds from /repo, searches, reports.

Exit 0: no violation of the property in any run. Exit 1: violation, with a
VIOLATION line naming the replay file. Anything else: the check is broken.
"""
import json
import os
import re
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "run"))
import props  # noqa: E402


def known_findings(prop):
    """[(class, text)] of the findings listed for the property."""
    out = []
    with open(os.path.join(VERIF, "known_findings.txt")) as f:
        for line in f:
            m = re.match(r"finding: property=(\S+) class=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3).strip()))
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get(
        "VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    build = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
    rc = subprocess.call([sys.executable, os.path.join(VERIF, "run/build.py"),
                          build])
    if rc != 0:
        print("the simulator does not build from the working tree")
        return 2
    build_s = time.time() - t0
    limit = props.THOROUGH_S if tier == "thorough" else (
        props.QUICK_OVERRIDE.get(prop, props.QUICK_S))
    limit = float(os.environ.get("VERIF_TIME", limit))
    known = known_findings(prop)
    replays = os.path.join(build, "replays")
    os.makedirs(replays, exist_ok=True)
    out = os.path.join(build, "result-%s.json" % prop)
    cmd = [os.path.join(build, "simrun"), "--property", prop, "--scenarios",
           ",".join("%s:%d" % s for s in props.SCENARIOS[prop]),
           "--seed", str(seed), "--time", str(limit), "--out", out,
           "--replay-dir", replays,
           "--minimise-time", "120" if tier == "thorough" else "40"]
    for cls, _ in known:
        cmd += ["--known", "%s:%s" % (prop, cls)]
    # How exactly runs repeat: each is repeated from its recorded decisions.
    self_out = out + ".self"
    subprocess.run(cmd[:1] + ["--property", "none", "--scenarios", cmd[4],
                              "--seed", str(seed), "--time",
                              "20" if tier == "thorough" else "1.5",
                              "--selfcheck", "--out", self_out],
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    repeat = {"runs": 0, "differ": 0}
    try:
        with open(self_out) as f:
            c = json.load(f)["counters"]
        repeat = {"runs": c.get("selfcheck:replayed", 0),
                  "differ": c.get("selfcheck:differs", 0)}
        os.remove(self_out)
    except (OSError, ValueError):
        pass
    if os.path.exists(out):
        os.remove(out)
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       text=True, errors="replace")
    try:
        with open(out) as f:
            d = json.load(f)
    except (OSError, ValueError) as e:
        print("no result: %s\n%s" % (e, r.stderr[-2000:]))
        return 2
    faults = {k[6:]: v for k, v in d["counters"].items()
              if k.startswith("fault:")}
    probes = {k[6:]: v for k, v in d["runs_with"].items()
              if k.startswith("probe:")}
    search = max(d["search_wall_s"], 1e-6)
    v = d["violation"]
    scen = props.SCENARIOS[prop]
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": props.LEVEL.get(prop, "exploration"),
        "coverage": {
            "evaluations": d["runs"],
            "distinct_nontrivial": d["distinct_interleavings"],
            "rule": "one evaluation is one simulated run: configuration, "
                    "workload, schedule and faults drawn from its seed; "
                    "distinct and non-trivial are runs with at least four "
                    "context switches whose sequence of (fiber, step) "
                    "switches differs from every other run's",
            "samples": d["samples"],
            "seeds_per_hour": round(d["runs"] / search * 3600),
            "simulated_seconds": d["sim_seconds"],
            "scheduler_steps": d["steps"],
            "context_switches": d["switches"],
            "max_fibers_in_a_run": d["max_fibers"],
            "repeated_from_recorded_decisions": repeat,
            "faults_injected": faults,
            "runs_reaching_situation": probes,
            "runs_per_scenario": d["scenarios"],
            "known_findings_seen": d["known"],
            "other_properties_violated": d["foreign_classes"],
            "runs_ended_by_simulator_error": d["sim_errors"],
            "real_code": {s: props.REAL.get(s, "") for s, _ in scen},
            "stubs": props.STUB,
            "build_s": round(build_s, 1),
        },
        "assumptions": [
            "memory is sequentially consistent",
            "the simulator's mutexes, condition variables, notifications and "
            "clocks behave as absl documents them",
        ],
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if v else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for cls, text in known:
        print("KNOWN-FINDING: property=%s %s [%s, seen in %d runs]" %
              (prop, text, cls, d["known"].get(cls, 0)))
    print("%s: %d runs (%d distinct interleavings) in %.0f s, build %.0f s, "
          "%.0f simulated s" % (prop, d["runs"], d["distinct_interleavings"],
                                search, build_s, d["sim_seconds"]))
    for e in d["errors"]:
        print("simulator error: " + e[:300])
    if v:
        print("%s: %s" % (v["class"], v["message"][:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, v["replay"]))
        return 1
    if d["nondeterministic"]:
        print("a violation was seen that could not be repeated:\n" +
              r.stderr[-1500:])
    if d["runs"] == 0:
        print("no run completed\n" + r.stderr[-1500:])
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
