#!/bin/sh
# Nothing is compiled: checks that the simulator and the code under test import.
cd "$(dirname "$0")" || exit 1
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
exec "${DST_PYTHON:-/opt/venv/bin/python}" -B -c "
from dst import boot
from dst.registry import CHECKS
from dst.runner import scenario
for s in sorted({s for c in CHECKS.values() for s, _, _ in c}):
    scenario(s)
import aiok8s
print('ready', len(CHECKS), 'checks')"
