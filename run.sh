#!/bin/bash
# run.sh <PROPERTY> [--tier quick|thorough] [--replay FILE]
cd "$(dirname "$0")"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH="${VT_REPO:-/repo}" PYTHONWARNINGS=ignore
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 MPLBACKEND=Agg
unset DISPLAY
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" vt/main.py "$@"
