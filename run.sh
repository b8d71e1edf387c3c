#!/bin/bash
# usage: run.sh PROPERTY TIER | run.sh --replay FILE
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
export TZ=UTC LC_ALL=C.UTF-8
exec /opt/venv/bin/python -B -m sim.main "$@"
