#!/bin/bash
# check.sh <property-id> [quick|thorough] [...]: run one property's check
# against /repo's current working tree (pure Python: nothing to compile).
cd "$(dirname "$0")" || exit 2
REPO="${VERIF_REPO:-/repo}"
export VERIF_REPO="$REPO"
export PYTHONPATH="$REPO" PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
export MPLBACKEND=agg SDL_VIDEODRIVER=dummy
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export DASK_DISTRIBUTED__SCHEDULER__DASHBOARD__STATUS__TASK_STREAM_LENGTH=10
exec /opt/venv/bin/python run.py "$@"
