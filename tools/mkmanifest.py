#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {
    "C24": "Encoding and decoding of provisioning and publication messages are pure functions of one message: no task, time, I/O, randomness or second party for a simulator to schedule or fail, so deterministic simulation with fault injection has nothing to decide here.",
    "C25": "The object encoders and decoders are pure functions of one value: there is no schedule, clock, I/O or fault that the round trip could depend on, so deterministic simulation does not apply. (The validation of decoded objects inside the system is covered by C01, C04, C15 and C16.)",
}
ENTRY = {"C20": "localrpki", "C21": "api", "C22": "ov", "C23": "ctrpki"}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
        continue
    e = ENTRY.get(i, "octorpki")
    if not os.path.exists("%s/sim/entry/%s_test.go" % (V, e)):
        na.append({"property": i, "reason": "not claimed yet: the simulation of this component is being built"})
        continue
    checks.append({
        "property": i,
        "quick_cmd": "python3 bin/check.py %s quick" % i,
        "thorough_cmd": "python3 bin/check.py %s thorough" % i,
        "technique": "deterministic simulation with fault injection: seeded search over schedules, histories and faults of the whole program, reference-model and history oracles, minimised replayable traces",
        "level": "exploration",
        "level_note": "Thousands of seeded simulated executions of the real program judged by an independent model; no exhaustive claim. Trusts the simulator (scheduler seam, file system, network and rsync models), Go's standard library and the reference model in sim/verifsim/harness.",
    })
json.dump({"version": 1, "setup_cmd": "python3 bin/check.py setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks are committed in /repo: the seams are added to a scratch overlay of the current tree at build time by sim/instr (type-checked source instrumentation), so the shipped code is unchanged. bin/check.py replay FILE replays a violation."},
          open(V + "/MANIFEST.json", "w"), indent=1)
