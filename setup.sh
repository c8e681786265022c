#!/bin/bash
# nothing is compiled: check that the interpreter, the repository and the solvers load
here="$(cd "$(dirname "$0")" && pwd)"
mkdir -p "$here/evidence" "$here/replays"
cd "$here"
PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH="${VERIF_REPO:-/repo}:$here" /opt/venv/bin/python -W ignore -c "
from engine import runner
import numpy, scipy, aeolis
print('setup ok', runner.z3.get_version_string(), numpy.__version__)
"
