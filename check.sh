#!/bin/bash
# Usage: check.sh <PROPERTY> [quick|thorough]   (run from /verif)
# Runs one property monitor against /repo's current working tree.
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export MPLBACKEND=agg
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
export VERIF_SEED="${VERIF_SEED:-1}"
exec /opt/venv/bin/python -m mon.runner "$1" --tier "$VERIF_TIER" --seed "$VERIF_SEED" "${@:3}"
