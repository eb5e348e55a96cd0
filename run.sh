#!/bin/bash
# ./run.sh <PROPERTY> [--tier quick|thorough] [--replay FILE]: explore one property against /repo's working tree.
here=$(cd "$(dirname "$0")" && pwd)
export LANG=C.UTF-8 LC_ALL=C.UTF-8
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent-pycache PYTHONHASHSEED=0
export MPLBACKEND=Agg MPLCONFIGDIR=/opt/venv/mplconfig
export NUMBA_NUM_THREADS=${NUMBA_NUM_THREADS:-1} OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export NUMBA_THREADING_LAYER=workqueue
export VERIF_TIER=${VERIF_TIER:-quick} VERIF_SEED=${VERIF_SEED:-1}
export VERIF_REPO=${VERIF_REPO:-/repo}
export PYTHONPATH="$VERIF_REPO:$here"
cd "$here" || exit 2
exec /opt/venv/bin/python -m mc.harness "$@"
