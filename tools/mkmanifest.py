"""Writes MANIFEST.json from checks/index.json, properties.jsonl and the notes below."""
import json
from pathlib import Path

V = Path(__file__).resolve().parent.parent
idx = json.loads((V / "checks/index.json").read_text())
props = [json.loads(x) for x in (V / "properties.jsonl").read_text().splitlines() if x.strip()]
checks, na = [], []
for p in props:
    e = idx.get(p["id"])
    if not e:
        na.append({"property": p["id"], "reason": "no check built yet"})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"bash /verif/check.sh {p['id']} --tier quick",
        "thorough_cmd": f"bash /verif/check.sh {p['id']} --tier thorough",
        "technique": e["technique"],
        "level": "exploration",
        "level_note": e["note"],
    })
m = {
    "version": 1,
    "setup_cmd": "bash /verif/setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "Every check stages /repo's current sources under /verif/build (keyed by their content), builds the native "
             "extensions there out of tree, and runs monitors over the staged package; /repo is only read.",
}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks;", len(na), "not claimed")
