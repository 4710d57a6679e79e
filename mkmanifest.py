#!/opt/venv/bin/python
"""Write MANIFEST.json: a check for every property that has a module under props/, a reason for every other."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
NA = {
    "C16": "A pure function of its arguments: no schedule, clock, I/O, randomness or process for a simulation to control (the solver is exercised with models whose derivatives are exact).",
    "C17": "A pure function from times and kernel to a matrix: nothing for a simulator to schedule or fail. What a conversion run writes is decided under C14.",
    "C18": "A pure function from a time series to bins: nothing for a simulator to schedule or fail.",
    "C19": "The trial and combination code cannot run at this commit (undefined attributes, a missing index key, wrong unpacking of the solver's result), so no execution exists to simulate; making it run would be development, not repair.",
}
PENDING = "Decided by this technique; the check is not built yet."
TECH = {
    "C13": "deterministic simulation of the shell orchestration: simulated batch system, virtual time, seeded job schedules and failures, stage-order oracle over the recorded history",
    "C20": "deterministic simulation: the real reader and writers on seeded jobs under seeded disk faults, memory and files compared with a reference model",
    "C12": "deterministic simulation: seeded corruption of stored input under the real program, exit status and output oracle",
}
TECH["C21"] = "deterministic simulation: the real checker program on seeded conforming and deviating files under seeded read faults and damage, verdict compared with what was put in"
DEFAULT = "deterministic simulation with fault injection: seeded schedules, crash points and I/O faults on the real code, checked against an independent reference"

props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "props", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": "./check.py %s --tier quick" % i, "thorough_cmd": "./check.py %s --tier thorough" % i,
                       "technique": TECH.get(i, DEFAULT), "level": "exploration",
                       "level_note": "Seeded search: each run fixes one exactly repeatable execution; a failure is minimised and replayed from its file.",
                       "evidence_file": "evidence/%s.json" % i})
    else:
        na.append({"property": i, "reason": NA.get(i, PENDING)})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python sim/build.py", "checks": checks, "not_applicable": na,
     "notes": "DESIGN.md describes the simulator; known_findings.json lists defects found. No hooks in /repo: the code's process, file and clock calls are interposed from outside."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
