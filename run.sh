#!/bin/bash
# usage: bash run.sh CHECK_ID [quick|thorough] [--replay FILE]
cd "$(dirname "$0")" || exit 2
export MPLBACKEND=Agg MPLCONFIGDIR="${MPLCONFIGDIR:-/opt/cache/matplotlib}"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONNOUSERSITE=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
exec /opt/venv/bin/python -W ignore -m mc.run "$@"
