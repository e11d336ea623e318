"""Writes /verif/MANIFEST.json from checks/spec.py and properties.jsonl."""
import json
import os
import sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks.spec import SPEC  # noqa: E402

TECH = {
    "default": "deterministic simulation: seeded schedule search over a "
               "simulated TF executor, checked against a reference model",
    "C03": "deterministic simulation with injected NaN/inf model faults, "
           "reference model and bounded-recovery check",
    "C07": "deterministic simulation with injected operation failures at "
           "seeded points, in-flight operations included",
    "C08": "deterministic simulation with crash/restart from checkpointed "
           "variables, refinement against the uninterrupted run",
    "C10": "deterministic thread simulation (seeded line-level scheduler) and "
           "exception injection, checked against a reference model",
    "C12": "deterministic simulation of the random seam, seeded statistical "
           "test of recorded samples against log_prob",
    "C13": "deterministic simulation with extreme draws injected at the "
           "random seam",
    "C17": "deterministic simulation of the random seam: exact replays with "
           "one draw replaced show which outputs share it",
    "C18": "deterministic simulation of the random seam: exact replays of the "
           "same draws with a parameter moved give the reference derivative",
    "C19": "deterministic simulation of construction and update histories "
           "with injected construction failures, reference parameter store",
    "C20": "deterministic simulation of interleaved components with injected "
           "failures, refinement against each component's solo run",
    "C21": "deterministic simulation with numeric faults injected in run-time "
           "parameters and values at seeded iterations",
    "C22": "deterministic simulation of one program in two environments "
           "(process, hash seed, history, thread, schedule), exact comparison",
    "C23": "deterministic simulation of training histories of flows with "
           "failed steps, far jumps and restarts; Jacobian log-determinant "
           "as the reference after every step",
    "C16": "deterministic simulation with simulated network and file-system "
           "faults and crash points",
}
NOTE = {
    "default": "A seeded search over execution orders, draws and histories on "
               "the real graph with real kernels; clean means none of the "
               "explored runs broke the property. Trusts the simulated "
               "executor (self-tested against the real one) and TF kernels.",
    "C12": "Statistical comparison with a per-run false-alarm bound below "
           "1e-9; deviations below the sample resolution are not seen.",
    "C16": "Searches fault points of the real loader code against a simulated "
           "network and a scratch directory; crashes are modelled as abandoned "
           "calls that keep only what had reached the file.",
}
NA = {
    "C90": "pure function of its arguments: no schedule, draw, time, I/O or "
           "history enters; the simulator has nothing to control",
    "C91": "pure shape/dtype computation at graph construction; nothing for a "
           "scheduler or fault injector to vary",
    "C93": "pure NumPy function of its argument array",
    "C94": "pure helper functions of their arguments",
    "C95": "pure delegation to tensor operators",
}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in SPEC:
        checks.append({
            "property": i, "quick_cmd": "./check %s" % i,
            "thorough_cmd": "./check %s --tier thorough" % i,
            "technique": TECH.get(i, TECH["default"]),
            "level": SPEC[i]["level"],
            "level_note": NOTE.get(i, NOTE["default"])})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "true", "checks": checks,
     "not_applicable": na,
     "notes": "No hooks in /repo: the seams are the TF graph (executed by the "
              "simulator), the random ops, threads and urlretrieve/open."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks", len(na), "not applicable")
