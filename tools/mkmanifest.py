#!/usr/bin/env python3
"""writes MANIFEST.json from the properties and the checks that exist"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
PY = "/opt/venv/bin/python"
EX = "exhaustive bounded enumeration of inputs on the real code against a reference model"
T = {
    "C01": EX, "C02": EX, "C03": EX, "C04": EX, "C05": EX, "C06": EX, "C07": EX + " (exact solution), over step sequences", "C11": EX, "C12": EX,
    "C08": "exhaustive enumeration of step histories, each step compared with an independent model of the documented formula",
    "C09": "explicit-state breadth-first search over operation sequences on the real integrators, against a reference state machine",
    "C10": "exhaustive enumeration of driver configurations and callback behaviours against a reference driver model",
    "C13": EX + "; exhaustive enumeration of all convergence answer sequences for the substep controller",
    "C14": "exhaustive enumeration of the interleavings of two integrations (stateless exploration of the real code)",
    "C15": EX, "C16": EX, "C17": EX,
    "C18": "stateless model checking: all thread schedules up to a preemption bound under a controlled scheduler, on the real code",
    "C19": EX + " (Rust modules compiled against stand-ins of their libraries)",
    "C20": "exhaustive enumeration of operation sequences on the compiled Rust integrators in lockstep with a reference model",
    "C21": EX + "; enumeration of all failure positions (bindings compiled against stand-ins of their libraries)",
}
L = {"C09": "model_checking", "C14": "model_checking", "C18": "model_checking", "C13": "model_checking", "C10": "model_checking"}
NOTE = {}
exec(open(os.path.join(V, "tools", "notes.py")).read())
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        import re
        lev = re.search(r'^LEVEL = "(\w+)"', open(os.path.join(V, "checks", i.lower() + ".py")).read(), re.M).group(1)
        checks.append(dict(property=i, quick_cmd=f"{PY} run.py {i} --tier quick", thorough_cmd=f"{PY} run.py {i} --tier thorough",
                           technique=T[i], level=lev, level_note=NOTE[i]))
    else:
        na.append(dict(property=i, reason=NA.get(i, "not claimed yet: the check is under construction")))
m = dict(version=1, setup_cmd=f"{PY} -c 'import jax, mpmath, scipy, numpy'", checks=checks, not_applicable=na,
         notes="No hooks: nothing in /repo is guarded. Fix commits are listed in known_findings.txt.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print(len(checks), "checks,", len(na), "not claimed")
except ImportError:
    pass
