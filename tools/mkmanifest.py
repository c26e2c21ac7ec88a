#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the list of implemented checks."""
import json, subprocess, os, jsonschema
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
have = subprocess.run([root + "/sim/target/release/sim", "list"], capture_output=True, text=True).stdout.split()
NA = {
    "C25": "pure functions of their arguments (graph generators): no schedule, clock, fault, callback or shared state can influence them, so there is nothing for a simulator to decide",
}
NOTE = ("Seeded search over simulated executions: a clean batch is evidence, not proof. Trusts the executable reference "
        "models in sim/src (gen.rs, oracle.rs, props/) and the libc-level simulation in sim/src/fsim.rs; interleavings are "
        "sequentially consistent at seam crossings. Same VERIF_SEED, same executions.")
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i} quick",
            "thorough_cmd": f"./check.sh {i} thorough",
            "technique": "deterministic simulation with fault injection (seeded schedules, faults and inputs; reference-model oracles)",
            "level": "exploration",
            "level_note": NOTE,
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "./check.sh build", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo are needed: the seams are the libc boundary, the fxhash crate (patched in sim/fxhash) and the crate's own traits. 'fix:' commits in /repo are listed in known_findings.txt. Replay a violation with ./check.sh replay FILE."}
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
