#!/bin/bash
# replay.sh <replay file>: re-execute a recorded violation; exit 1 when it reproduces.
cd "$(dirname "$0")" || exit 2
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec env PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 "$PY" run.py replay "$1"
