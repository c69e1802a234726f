"""Development helper: runs simrun and prints a short summary.
usage: try.py PROPERTY SCENARIOS SECONDS [minimise-seconds]"""
import json, subprocess, sys, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
prop, scen, secs = sys.argv[1:4]
mini = sys.argv[4] if len(sys.argv) > 4 else "10"
os.makedirs("/tmp/rp", exist_ok=True)
p = subprocess.run([here + "/build/simrun", "--property", prop, "--scenarios", scen,
                    "--time", secs, "--replay-dir", "/tmp/rp", "--minimise-time", mini],
                   capture_output=True, text=True)
o = p.stdout
i = o.find('{"runs"')
try:
    d, _ = json.JSONDecoder().raw_decode(o[i:])
except Exception as e:
    print(o[-3000:], p.stderr[-2000:]); sys.exit(1)
print("runs", d["runs"], "steps/run", d["steps"] // max(1, d["runs"]), "wall", round(d["wall_s"], 1),
      "errors", d["sim_errors"], d["errors"][:2], "nondet", d["nondeterministic"])
if "-v" in sys.argv: print(json.dumps(d["counters"], indent=0)); print(json.dumps(d["runs_with"]))
print("foreign", json.dumps(d["foreign_classes"], indent=1))
if d.get("violation"): print("VIOLATION", json.dumps(d["violation"], indent=1))
