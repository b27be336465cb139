#!/bin/bash
# run.sh <PROPERTY> <quick|thorough>  or  run.sh --replay FILE
cd "$(dirname "$0")" || exit 3
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent/pycache MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
export LANG=C.UTF-8 LC_ALL=C.UTF-8 PYTHONPATH="${SX_REPO:-/repo}"
[ -d /opt/vp/mplconfig ] && export MPLCONFIGDIR=/opt/vp/mplconfig
PY=${SX_PY:-/opt/pvenv/bin/python}
if [ "$1" = --replay ]; then exec "$PY" check.py --replay "$2"; fi
P=$1; T=${2:-quick}; shift; shift
exec "$PY" check.py "$P" --tier "$T" "$@"
