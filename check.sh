#!/bin/bash
# usage: check.sh PROPERTY quick|thorough
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export PYTHONHASHSEED=0 ONEDNN_PRIMITIVE_CACHE_CAPACITY=2 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
exec /opt/venv/bin/python -B -W ignore -m sim.check "$@"
