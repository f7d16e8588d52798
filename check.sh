#!/bin/bash
# usage: check.sh <property id> <quick|thorough>
# Runs one check of /repo's current working tree.
cd "$(dirname "$0")" || exit 2
export PYTHONPATH="${MC_REPO:-/repo}:$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
unset http_proxy https_proxy HTTP_PROXY HTTPS_PROXY ALL_PROXY all_proxy NO_PROXY no_proxy
PY=/opt/venv/bin/python
exec "$PY" -m mc.run "$1" "${2:-${VERIF_TIER:-quick}}"
