#!/bin/bash
# bash run.sh <property id> | bash run.sh --replay <file>
set -u
cd "$(dirname "$0")" || exit 2
export HOME=/root PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export MPLCONFIGDIR=${MPLCONFIGDIR:-/opt/venv/mplconfig} NUMBA_NUM_THREADS=4
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONPATH=/verif_none
REPO=${VERIF_REPO:-/repo}
unset PYTHONPATH
export VERIF_REPO="$REPO"
exec /opt/venv/bin/python -W ignore -m mc.main "$@"
