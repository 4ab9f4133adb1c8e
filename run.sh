#!/bin/bash
# usage: run.sh <PROPERTY-ID> [--replay FILE]     (cwd: anywhere)
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1 MPLBACKEND=Agg QT_QPA_PLATFORM=offscreen
export PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1
export PYTHONPATH="/repo"
exec /opt/venv/bin/python -W ignore "$here/harness/main.py" "$@"
