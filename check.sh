#!/bin/bash
# usage: check.sh <PROPERTY> <quick|thorough> [--replay FILE]
# Runs the runtime monitors of one property against /repo's working tree.
HERE=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export HOME=${HOME:-/root} LANG=C.UTF-8 MPLBACKEND=Agg PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1
export PYTHONPATH="/repo:$HERE"
exec /opt/venv/bin/python -X utf8 -m vk.runner "$@"
