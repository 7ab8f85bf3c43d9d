#!/bin/bash
# usage: check.sh ID quick|thorough   (or: check.sh --run ARGS for dst/run.py ARGS)
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=${DST_HASHSEED:-0} PYTHONWARNINGS=ignore
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 RAYON_NUM_THREADS=1 MPLBACKEND=Agg
unset MPLCONFIGDIR
if [ "$1" = --run ]; then shift; exec "$PY" dst/run.py "$@"; fi
exec "$PY" dst/run.py check "$1" --tier "$2"
