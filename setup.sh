#!/bin/bash
# Nothing is compiled: the checks import nnj from /repo's working tree. This only confirms that the interpreter,
# torch, the package and the simulator can be imported, and that one run of each property works.
cd "$(dirname "$(readlink -f "$0")")" || exit 1
export PYTHONHASHSEED=0 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
exec /opt/venv/bin/python -B -W ignore -m sim.selftest smoke
