"""Writes MANIFEST.json from checks.json."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
conf = json.load(open(os.path.join(ROOT, "harness", "checks.json")))
checks = []
for prop in sorted(conf):
    c = conf[prop]
    checks.append({
        "property": prop,
        "quick_cmd": "VERIF_TIER=quick bin/check " + prop,
        "thorough_cmd": "VERIF_TIER=thorough bin/check " + prop,
        "evidence_file": "evidence/%s.json" % prop,
        "technique": "TLA+ specification (%s) explored by TLC; every generated behaviour replayed on the library and compared with the specified answers"
        % ", ".join(m + ".tla" for m in c["modules"]),
        "level": "model_checking",
        "level_note": c.get("note", "Scenarios are drawn inside the specification from the seed within the bounds given in DESIGN.md; answers are exact rationals, cyclotomics or closed terms."),
    })
man = {
    "version": 1,
    "setup_cmd": "bash bin/setup",
    "checks": checks,
    "not_applicable": [],
    "notes": "Specification in spec/, replay harness in harness/, see DESIGN.md.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
