#!/bin/bash
# Nothing to build: the checks run the code in /repo directly. Check that the parts are there.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
exec env PYTHONPATH=/repo PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "
import sys; sys.path.insert(0, '.')
from symx import core
import z3, rubin_sim
print('z3', z3.get_version_string())"
