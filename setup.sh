#!/bin/bash
# Checks that the interpreter, the code under check and the solver are usable.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence/replays
exec /opt/venv/bin/python - <<'P'
import sys
sys.path.insert(0, "/repo")
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3, numpy, obp.ope, obp.dataset, obp.policy, obp.simulator
print("z3", z3.get_version_string(), "numpy", numpy.__version__)
P
