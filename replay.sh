#!/bin/bash
# usage: replay.sh <replay file>: runs the single recorded case again, without the explorer.
f=$(realpath "$1"); cd "$(dirname "$0")" || exit 2
export PYTHONPATH="${MC_REPO:-/repo}:$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
unset http_proxy https_proxy HTTP_PROXY HTTPS_PROXY ALL_PROXY all_proxy NO_PROXY no_proxy
exec /opt/venv/bin/python -m mc.replay "$f"
