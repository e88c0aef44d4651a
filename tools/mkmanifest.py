"""Writes MANIFEST.json: one check per property that has a driver."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
    "default": "TLC explores the finite design model exhaustively; the binding to the code is by recorded executions, "
               "each event of which the trace specification accepts or rejects. Inputs outside the recorded ones are not covered.",
}
checks, na = [], []
for ln in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(ln)["id"]
    if os.path.exists(os.path.join(HERE, "drivers", p.lower() + ".py")):
        checks.append({
            "property": p,
            "quick_cmd": f"/opt/venv/bin/python -W ignore run_check.py {p} --tier quick",
            "thorough_cmd": f"/opt/venv/bin/python -W ignore run_check.py {p} --tier thorough",
            "technique": "TLA+ specification; TLC model checking of the design and TLC trace validation of recorded executions",
            "level": "model_checking",
            "level_note": NOTE.get(p, NOTE["default"]),
        })
    else:
        na.append({"property": p, "reason": "check not built yet"})
json.dump({
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -W ignore tools/setup.py",
    "checks": checks,
    "not_applicable": na,
}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
