#!/bin/bash
# Usage: check.sh <PROPERTY> [quick|thorough]      (run in /verif)
HERE=$(cd "$(dirname "$0")" && pwd)
export VERIF_TIER=${2:-${VERIF_TIER:-quick}} VERIF_SEED=${VERIF_SEED:-1}
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 TZ=UTC
export MPLBACKEND=Agg MPLCONFIGDIR=/root/.cache/matplotlib OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export PYTHONPATH=${VERIF_REPO:-/repo}:$HERE/tools
exec /opt/venv/bin/python "$HERE/tools/main.py" "$1"
