"""Writes MANIFEST.json from the property modules that exist."""
import json
import pathlib
import sys

ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT))

NOTES = {}
exec((ROOT / "tools" / "manifest_notes.py").read_text())

checks, missing = [], []
for line in (ROOT / "properties.jsonl").read_text().splitlines():
    p = json.loads(line)["id"]
    if (ROOT / "vf" / "props" / f"{p.lower()}.py").exists():
        technique, note = NOTES.get(p, (None, None))
        checks.append({
            "property": p,
            "quick_cmd": f"python3 check.py {p} --tier quick",
            "thorough_cmd": f"python3 check.py {p} --tier thorough",
            "technique": technique or "stateless model checking of the implementation (exhaustive choice enumeration)",
            "level": "model_checking",
            "level_note": note or "holds on every execution within the bounds stated in the evidence file",
        })
    else:
        missing.append({"property": p, "reason": "check not built yet"})
(ROOT / "MANIFEST.json").write_text(json.dumps({
    "version": 1,
    "setup_cmd": "python3 -B tools/setup.py",
    "checks": checks,
    "not_applicable": missing,
    "notes": "No hooks in /repo: the library is driven through its public abstract interfaces. See DESIGN.md.",
}, indent=1) + "\n")
print(len(checks), "checks,", len(missing), "not claimed")
