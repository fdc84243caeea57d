#!/bin/bash
# usage: ./run.sh PROPERTY [--tier quick|thorough] [--replay FILE] ...
cd "$(dirname "$(readlink -f "$0")")" || exit 2
unset PYTHONPATH PYTHONSTARTUP
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1 \
  OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
exec /opt/venv/bin/python -B -W ignore -m mc "$@"
