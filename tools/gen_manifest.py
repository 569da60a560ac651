"""Writes MANIFEST.json from the check modules present and the list of properties."""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "sim"))
PY = "/opt/venv/bin/python"

props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
sys.path.insert(0, os.path.join(V, "tools"))
from gen_properties import NA_REASONS  # noqa

for p in props:
    i = p["id"]
    if i.startswith("N"):
        na.append({"property": i, "reason": NA_REASONS[i]})
        continue
    f = os.path.join(V, "sim", "checks", f"{i.lower()}.py")
    if not os.path.exists(f):
        na.append({"property": i, "reason": "check not built yet"})
        continue
    m = importlib.import_module(f"checks.{i.lower()}")
    checks.append(
        {
            "property": i,
            "quick_cmd": f"{PY} sim/main.py {i} quick",
            "thorough_cmd": f"{PY} sim/main.py {i} thorough",
            "technique": "deterministic simulation with fault injection: " + m.__doc__.split(":", 1)[1].strip().replace("\n", " "),
            "level": m.LEVEL,
            "level_note": "Seeded search, not exhaustive. "
            + m.RULE
            + ". Trusted: "
            + "; ".join(m.ASSUMPTIONS)
            + ".",
        }
    )
json.dump(
    {
        "version": 1,
        "setup_cmd": "true",
        "checks": checks,
        "not_applicable": na,
        "notes": "No hooks in /repo: every seam (threads, files, processes, hash seed, data sources) is taken from outside. "
        "Replay: " + PY + " sim/main.py --replay <file>.",
    },
    open(os.path.join(V, "MANIFEST.json"), "w"),
    indent=1,
)
print(len(checks), "checks")
