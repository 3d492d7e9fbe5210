#!/bin/sh
# run.sh PROPERTY [quick|thorough]   run a check
# run.sh --replay FILE               repeat a recorded violation
cd "$(dirname "$0")" || exit 2
PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python -m sim.runner "$@"
