"""Writes MANIFEST.json."""
import json
import os
import sys
import jsonschema

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = ["C%02d" % i for i in range(1, 100) if os.path.exists(os.path.join(V, "dst/worlds/w_c%02d.py" % i))]
NOTE = {
 "C01": "file system and network are simulated; power loss (lost page cache) is out of scope, a process kill keeps what was written",
 "C06": "small models stand in for the published ones; TensorFlow is a stub module",
 "C07": "TensorFlow, pip and nvidia-smi are stubs; import machinery and threads are real",
 "C08": "a small deterministic network stands in for the published CNN; torch is real",
 "C09": "TensorFlow model is a deterministic stand-in; scaling and sampling code is real",
 "C10": "HDF5 and h5py are real on a faulting file driver",
 "C12": "pykrige is real (vectorized and loop back ends)",
 "C16": "telemetry network and collector are simulated, pycomlink stages are real; numba loops run as plain Python",
 "C17": "telemetry network and collector are simulated, pycomlink stages are real; numba loops run as plain Python",
 "C19": "network membership, telemetry and collector are simulated, pycomlink stages are real; numba loops run as plain Python",
 "C20": "links are plain objects with metadata; pycomlink, shapely and numpy are real",
 "C21": "gauges, links, telemetry network and collector are simulated, pycomlink, numpy and pandas are real",
 "C22": "telemetry network and collector are simulated, pycomlink stages are real; numba loops run as plain Python; the oracle is a reference model fed step by step",
 "C18": "telemetry network and collector are simulated, aggregation and pandas are real",
}
NA = {
 "C30": "calc_R_from_A and a_b are pure numeric functions of their arguments: no clock, I/O, schedule, state or second party for a simulator to control; what depends on history, interruption or sharing is claimed under C13 and on lost samples under C17",
 "C31": "pure formulas of rain rate or attenuation; nothing a schedule or fault could change (state and sharing: C13, losses: C17)",
 "C32": "pure geometry of coordinates; no nondeterminism to simulate (sharing of the distance matrix: C14)",
 "C34": "pure formula of date and duration; no nondeterminism to simulate",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: yield points and faults are injected through sys.monitoring and patched standard-library calls, see DESIGN.md."}
for p in props:
    i = p["id"]
    if i in CLAIMED:
        m["checks"].append({"property": i, "quick_cmd": "python3 run.py check %s --tier quick" % i, "thorough_cmd": "python3 run.py check %s --tier thorough" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": "deterministic simulation with fault injection, seeded search",
                            "level": "exploration",
                            "level_note": "Seeded search over simulated runs, each exactly repeatable; no completeness claim. "
                            + NOTE.get(i, "pycomlink and its numeric libraries run for real; scheduling, clock and faults are simulated") + "."})
    else:
        m["not_applicable"].append({"property": i, "reason": NA[i]})
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
open(os.path.join(V, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
print(len(m["checks"]), len(m["not_applicable"]))
