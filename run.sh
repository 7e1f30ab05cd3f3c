#!/bin/bash
# usage: run.sh <property> [--replay FILE]
# Decides a property for the code in /repo (working tree). Uses VERIF_SEED and VERIF_TIER.
HERE="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONPATH="$HERE"
exec /opt/venv/bin/python -W ignore -m pbt.runner "$@"
