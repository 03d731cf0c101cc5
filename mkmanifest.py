#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl: every property with a scenario is claimed."""
import json, os, re
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
src = "".join(open(here + "/sim/harness/" + f).read() for f in sorted(os.listdir(here + "/sim/harness")) if f.startswith("s_"))
have = set(re.findall(r'register\(&Scenario\{ID: "(C\d+)"', src))
NA = {
    "C22": "A pure lookup of its three arguments in a constant table: no schedule, clock, I/O, fault or second party takes part, so there is nothing for a simulation to decide.",
}
note = ("Seeded search over schedules and fault sequences: the real library code of /repo's working tree runs in one process under a "
        "simulator that decides every goroutine switch, timer, serial byte, disk operation and crash. A clean run is evidence from the sampled runs, "
        "not a proof. Trusted: the instrumenter and the simulation runtime (sim/), the model of the controller stick, its network and the disk; "
        "pre-emption between statements and at synchronisation operations, sequentially consistent memory.")
checks = [{
    "property": p["id"], "quick_cmd": "./run.sh %s quick" % p["id"], "thorough_cmd": "./run.sh %s thorough" % p["id"],
    "technique": "deterministic simulation with fault injection", "level": "exploration", "level_note": note,
} for p in props if p["id"] in have]
na = [{"property": p["id"], "reason": NA.get(p["id"], "No check yet (in progress).")} for p in props if p["id"] not in have]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the instrumentation is a build overlay made from the working tree at check time (see DESIGN.md). The commits in /repo since the base are repairs of genuine defects, listed in known-findings.txt."}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
open(here + "/MANIFEST.json", "a").write("\n")
