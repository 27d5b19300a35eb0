"""Write MANIFEST.json from the properties that have a check."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REASON = (
    "pure function of its input: no schedule, clock, I/O, crash or history takes part in it, so there is nothing for a "
    "simulator to decide (the generator is deterministic and the property would be decided by comparing text with types)"
)


def main():
    checks, missing = [], []
    with open(os.path.join(HERE, "..", "properties.jsonl")) as file:
        properties = [json.loads(line) for line in file]
    for prop in properties:
        name = prop["id"]
        path = os.path.join(HERE, "props", f"{name.lower()}.py")
        if not os.path.exists(path):
            reason = REASON if name.startswith("P") else "its check is not written yet"
            missing.append({"property": name, "reason": reason})
            continue
        module = importlib.import_module(f"props.{name.lower()}")
        checks.append(
            {
                "property": name,
                "quick_cmd": f"/opt/venv/bin/python -B sim/run.py quick {name}",
                "thorough_cmd": f"/opt/venv/bin/python -B sim/run.py thorough {name}",
                "evidence_file": f"evidence/{name}.json",
                "technique": "deterministic simulation with fault injection: " + module.TECHNIQUE,
                "level": module.LEVEL,
                "level_note": module.NOTE,
            }
        )
    manifest = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python -c 'import numpy, pandas, yaml, typing_extensions'",
        "checks": checks,
        "not_applicable": missing,
        "notes": "No hooks in /repo: all the seams are the functions of the standard library that the code calls. "
        "sim/run.py --replay FILE executes a replay again; sim/run.py --selftest proves that the runs are deterministic.",
    }
    text = json.dumps(manifest, indent=1) + "\n"
    path = os.path.join(HERE, "..", "MANIFEST.json")
    if "--check" in sys.argv:
        with open(path) as file:
            sys.exit(0 if file.read() == text else "MANIFEST.json is not up to date")
    with open(path, "w") as file:
        file.write(text)


if __name__ == "__main__":
    main()
