#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json
NOT_YET = {}
T = "TLA+ specification: TLC explores it, its behaviours are replayed in the code, and recordings of the code are checked against it (trace validation)"
NOTE = ("Within the explored worlds every state of the specification satisfies the property's law and the code does what the "
        "specification says in each; beyond them, generated executions are validated against the specification. "
        "Trusts TLC, the specification's reading of SCALE, and the harness's logging.")
def check(i):
    return {"property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough",
            "evidence_file": f"evidence/{i}.json", "technique": T, "level": "model_checking", "level_note": NOTE}
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 check.py build",
     "checks": [check(i) for i in ids if i not in NOT_YET],
     "not_applicable": [{"property": i, "reason": r} for i, r in NOT_YET.items()],
     "notes": "No hooks in /repo: the public API shows all that is specified. See DESIGN.md."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
