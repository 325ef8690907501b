"""Writes MANIFEST.json from the property modules that exist."""
import ast
import json
import os

from gen_properties import PROPS

HERE = os.path.dirname(os.path.abspath(__file__))


def const(path, name):
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", None) == name:
            return ast.literal_eval(node.value)
    return None


checks, na = [], []
for pid, *_ in PROPS:
    mod = os.path.join(HERE, "mc", "props", pid.lower() + ".py")
    if not os.path.exists(mod):
        na.append({"property": pid, "reason": "check not built yet"})
        continue
    bounds = const(mod, "BOUNDS")
    tech = const(mod, "TECHNIQUE") or "exhaustive bounded enumeration of inputs on the real code against an independent oracle"
    checks.append({
        "property": pid,
        "quick_cmd": f"./check.sh {pid} quick",
        "thorough_cmd": f"./check.sh {pid} thorough",
        "technique": tech,
        "level": "model_checking",
        "level_note": "Complete within the bounds: " + bounds["quick"] + ". Assumes: "
        + "; ".join(const(mod, "ASSUMPTIONS") or ["nothing beyond the Python runtime and numpy"]) + ".",
    })
json.dump({
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -c \"import numpy\" && chmod +x check.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo are needed: the checks import opt_einsum from /repo's working tree source on every run.",
}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
