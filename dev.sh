#!/bin/bash
# dev.sh c04 [contract names]: prove and sample contracts verbosely
cd "$(dirname "$0")" || exit 2
PYTHONPATH=${VC_REPO:-/repo}/src PYTHONDONTWRITEBYTECODE=1 NUMBA_DISABLE_JIT=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 exec /opt/venv/bin/python tools/dev.py "$@"
