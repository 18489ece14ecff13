#!/bin/bash
# Pre-build the staged packages the checks use (each check rebuilds by itself when sources differ).
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
"${VP_PYTHON:-/opt/venv/bin/python}" - <<'PY'
import json
from vp import build
specs = {(tuple(e.get("native", ())), e.get("flavour", "plain")) for e in json.load(open("checks/index.json")).values()}
for nat, fl in sorted(specs):
    print(nat, fl, build.stage(nat, fl))
PY
