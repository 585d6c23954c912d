#!/bin/bash
# usage: run.sh check C01 | run.sh replay FILE | run.sh list
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg TZ=UTC PIP_NO_INDEX=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 HDF5_USE_FILE_LOCKING=FALSE
unset PYTHONPATH PYTHONSTARTUP
cd "$(dirname "$(readlink -f "$0")")" || exit 2
exec /opt/venv/bin/python -m pbt.main "$@"
