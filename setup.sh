#!/bin/bash
# nothing to build: the checks interpret /repo's Python; see that they can
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python -W ignore - <<'P'
from symreg import env
from symreg.loadz3 import z3
env.install(True)
print("z3", z3.get_version_string(), "ready")
P
