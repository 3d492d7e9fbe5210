#!/bin/sh
# Nothing has to be built: check that the simulator can load the code.
cd "$(dirname "$0")" || exit 1
PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python -c '
from sim import seams
seams.load(gtk=True)
print("ready")'
