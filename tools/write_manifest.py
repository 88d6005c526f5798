"""Write MANIFEST.json: one check per property that has a module in harness/props."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
properties = [json.loads(line) for line in open(os.path.join(HERE, "properties.jsonl"))]
NOTES = json.load(open(os.path.join(HERE, "tools", "level_notes.json")))
checks, rest = [], []
for p in properties:
    pid = p["id"]
    if os.path.exists(os.path.join(HERE, "harness", "props", pid.lower() + ".py")):
        checks.append(
            {
                "property": pid,
                "quick_cmd": "./check.sh %s quick" % pid,
                "thorough_cmd": "./check.sh %s thorough" % pid,
                "technique": NOTES[pid]["technique"],
                "level": "exploration",
                "level_note": NOTES[pid]["note"],
            }
        )
    else:
        rest.append({"property": pid, "reason": "no check has been built yet"})
manifest = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": rest,
    "notes": "Property-based testing with Hypothesis over generated models and histories; see DESIGN.md. "
    "No hooks are needed in the code under test. VERIF_SEED selects the random sequence.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as handle:
    json.dump(manifest, handle, indent=1)
    handle.write("\n")
