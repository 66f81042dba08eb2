#!/bin/bash
# run.sh <property> [options of check.py]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export NUMBA_NUM_THREADS=1 NUMBA_DISABLE_JIT=${NUMBA_DISABLE_JIT:-1} MPLBACKEND=Agg
exec /opt/venv/bin/python check.py "$@"
