#!/bin/bash
# nothing to compile: the checks import the working tree of /repo directly
cd "$(dirname "$0")" || exit 2
mkdir -p evidence replays
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$(pwd):${PYDMD_REPO:-/repo}" MPLBACKEND=Agg
/opt/venv/bin/python -W ignore -c 'import pydmd, numpy, scipy, sklearn, xarray, mc.core; print("ready", pydmd.__file__)'
