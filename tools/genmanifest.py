"""Write MANIFEST.json: one entry per check module. Run from /verif."""

import json
from pathlib import Path

TECHNIQUE = "exhaustive bounded exploration on the real code against a reference model"
NOTE = (
    "Every element of the bounded space in the check's BOUNDS text is executed on the library and compared with an "
    "independent model; nothing is claimed beyond the bound. Trusts the format writers in vlib/, CPython and "
    "dissect.util/dissect.cstruct."
)

NOTES = {
    "C24": ("exhaustive enumeration of truncations and field damages (fault points) on the real code", None),
    "C32": ("exhaustive enumeration of failing reads (fault points, singly and in pairs) and of repeated operations", None),
    "C25": ("exhaustive enumeration of open/read interleavings over recording sources", None),
    "C23": ("breadth-first exploration of write/snapshot histories replayed into images", None),
    "C05": ("exhaustive exploration of operation histories on pairs of streams", None),
}

checks = []
built = set()
for path in sorted(Path("checks").glob("c[0-9][0-9]_*.py")):
    prop = path.stem[:3].upper()
    built.add(prop)
    technique, note = NOTES.get(prop, (TECHNIQUE, None))
    checks.append(
        {
            "property": prop,
            "quick_cmd": f"./run {prop} --tier quick",
            "thorough_cmd": f"./run {prop} --tier thorough",
            "evidence_file": f"evidence/{prop}.json",
            "technique": "model checking: " + technique,
            "level": "model_checking",
            "level_note": note or NOTE,
        }
    )
missing = []
for line in Path("properties.jsonl").read_text().splitlines():
    prop = json.loads(line)["id"]
    if prop not in built:
        missing.append({"property": prop, "reason": "check not built yet"})
manifest = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": missing,
    "notes": "No hooks in /repo: every check works through the public API. See DESIGN.md.",
}
Path("MANIFEST.json").write_text(json.dumps(manifest, indent=1) + "\n")
