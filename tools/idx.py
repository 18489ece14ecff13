"""Add checks to checks/index.json: stdin lines PID|module|native,native|technique|note"""
import json, sys
from pathlib import Path
p = Path(__file__).resolve().parent.parent / "checks/index.json"
d = json.loads(p.read_text())
for line in sys.stdin:
    if line.strip():
        pid, mod, nat, tech, note = line.rstrip("\n").split("|")
        d[pid] = {"module": mod, "native": [n for n in nat.split(",") if n], "technique": tech, "note": note}
p.write_text(json.dumps(d, indent=1) + "\n")
