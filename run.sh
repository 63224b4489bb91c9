#!/bin/bash
# usage: run.sh C01 [quick|thorough] [harness]   |   run.sh replay <file>
here="$(cd "$(dirname "$0")" && pwd)"
export HOME=${HOME:-/root} PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
unset PYTHONPATH PYTHONHOME
scratch="$(mktemp -d)"
trap 'rm -rf "$scratch"' EXIT
export MPLBACKEND=Agg MPLCONFIGDIR="$scratch/mpl" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export PYTHONPYCACHEPREFIX="$scratch/pyc"
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
cd "$here"
/opt/venv/bin/python "$here/run.py" "$@"
