#!/bin/bash
# usage: run.sh PNN quick|thorough   |   run.sh PNN replay FILE
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONHASHSEED=0 PYTHONNOUSERSITE=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONPATH="$(pwd):${PYDMD_REPO:-/repo}"
exec /opt/venv/bin/python -W ignore -c 'import sys; from mc.core import main; sys.exit(main(sys.argv[1:]))' "$@"
