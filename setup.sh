#!/bin/bash
# Nothing is compiled: the checks import the code of /repo directly. This verifies that they can.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence replays
PYTHONPATH="/repo:$PWD" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c 'import diamondback, mc.core, mc.sched; print("ready", diamondback.__file__)'
