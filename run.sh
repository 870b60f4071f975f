#!/bin/bash
# run.sh PROPERTY [quick|thorough]  |  run.sh --replay FILE  |  run.sh --case PROPERTY FAMILY JSON
cd "$(dirname "$0")" || exit 3
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONNOUSERSITE=1 PIP_NO_INDEX=1
export MPLBACKEND=Agg MPLCONFIGDIR=/repo/build/mpl
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1 KMP_DUPLICATE_LIB_OK=TRUE
unset PYTHONPATH PYTHONHOME CFLAGS CXXFLAGS LDFLAGS LC_ALL LC_CTYPE LC_MESSAGES
export LANG=C.UTF-8
PY=/opt/venv/bin/python
$PY -W ignore lib/ensure_build.py || exit 3
[ "$1" = --setup ] && exit 0
exec $PY -W ignore lib/driver.py "$@"
