#!/bin/bash
# Nothing to build: the monitors import /repo/src directly. Only verify the tools.
cd "$(dirname "$(readlink -f "$0")")" || exit 1
PY=/usr/bin/python3
[ -x "$PY" ] || PY=$(command -v python3)
PYTHONPATH=$PWD exec "$PY" -B -c '
import sys, os
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo") + "/src")
import mon.core, pynmeagps
print("python", sys.version.split()[0], "pynmeagps", pynmeagps.version)
'
