#!/bin/bash
# usage: run.sh <PROPERTY> quick|thorough   |   run.sh <PROPERTY> --replay FILE
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export TQDM_DISABLE=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1
MPLCONFIGDIR=$(mktemp -d /tmp/verif-mpl.XXXXXX); export MPLCONFIGDIR
/opt/venv/bin/python run.py "$@"
rc=$?
rm -rf "$MPLCONFIGDIR"
exit $rc
