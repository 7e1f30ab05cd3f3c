"""Writes MANIFEST.json from properties.jsonl and the existing checks."""
import json
import os

ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
properties = [json.loads(line) for line in open(os.path.join(ROOT, "properties.jsonl"))]
notes = json.load(open(os.path.join(ROOT, "tools", "level_notes.json")))
checks, missing = [], []
for p in properties:
    name = p["id"]
    if not os.path.exists(os.path.join(ROOT, "checks", name.lower() + ".py")):
        missing.append({"property": name, "reason": "check not built yet"})
        continue
    technique, note = notes.get(name, ["property-based testing against a reference model", "Bounds are in DESIGN.md."])
    checks.append(
        {
            "property": name,
            "quick_cmd": f"./run.sh {name}",
            "thorough_cmd": f"./run.sh {name} --tier thorough",
            "evidence_file": f"evidence/{name}.json",
            "technique": technique,
            "level": "exploration",
            "level_note": note,
        }
    )
manifest = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": missing,
    "notes": "Generated-input search (Hypothesis) against explicit oracles; see DESIGN.md. Nothing is built: the"
    " checks import the Python code of /repo's working tree.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as file:
    json.dump(manifest, file, indent=1)
    file.write("\n")
print(len(checks), "checks,", len(missing), "missing")
