"""Writes MANIFEST.json from properties.jsonl and the plans (run after changing either)."""
import json
import os

from driver import VERIF
from plans import PLANS

TECHNIQUE = ("TLA+ specification checked with TLC; behaviours generated from it by TLC are replayed on the real code and the "
             "recorded traces are validated against it by TLC")
NOTE = ("Every observed step of the code is compared with the exact transition of the specification (all structural cases up to the "
        "stated bounds plus pseudo-random behaviours); trusts TLC, the rational arithmetic overrides and the state projection.")


def main():
    with open(os.path.join(VERIF, "properties.jsonl")) as f:
        props = [json.loads(line) for line in f]
    checks, missing = [], []
    for p in props:
        i = p["id"]
        if i in PLANS:
            checks.append({"property": i, "quick_cmd": f"python3 harness/check.py {i}",
                           "thorough_cmd": f"python3 harness/check.py {i} --tier thorough",
                           "technique": TECHNIQUE, "level": "model_checking", "level_note": PLANS[i].get("level_note", NOTE)})
        else:
            missing.append({"property": i, "reason": "The machinery for this property is not finished."})
    man = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": missing,
           "notes": "No hooks are needed in /repo; all commits there are fix: commits (see known_findings.txt)."}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
