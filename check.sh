#!/bin/bash
# check.sh <ID> <tier>: run one check from /verif against /repo's working tree.
cd "$(dirname "$0")" || exit 2
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec env PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 PYTHONHASHSEED="${PYTHONHASHSEED:-0}" "$PY" run.py check "$1" "$2"
