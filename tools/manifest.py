#!/usr/bin/env python3
# Regenerates MANIFEST.json from the registered monitors (vmon props) and properties.jsonl.
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
env = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off")
mon = {p["id"]: p for p in json.loads(subprocess.check_output(["go", "run", ".", "props"], cwd=here + "/harness", env=env))}
ids = [json.loads(l)["id"] for l in open(here + "/properties.jsonl") if l.strip()]
assert sorted(ids) == sorted(mon), set(ids) ^ set(mon)
checks = []
for i in ids:
    n = mon[i]["level_note"]
    if not n.startswith("Held"):
        n = ("Held on the executed cases: " + n + ". Trusts the harness's own dense arithmetic and the "
             "tolerances, which are stated against a priori rounding bounds; worst observed ratios are in the evidence.")
    checks.append({"property": i, "quick_cmd": f"bin/check {i}", "thorough_cmd": f"VERIF_TIER=thorough bin/check {i}",
                   "technique": mon[i]["technique"], "level": "exploration", "level_note": n})
json.dump({"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": [],
           "notes": "One Go program (harness/) drives the library's public API with generated workloads; oracles and monitors judge what is observed. "
                    "No hooks in /repo. Replay a reported case with: .build/vmon replay FILE (after bin/setup). See DESIGN.md."},
          open(here + "/MANIFEST.json", "w"), indent=1)
print(len(checks))
