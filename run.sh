#!/bin/bash
# usage: run.sh <property>          (VERIF_TIER, VERIF_SEED from the environment)
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export MPLCONFIGDIR=/opt/venv/mplconfig PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
exec /opt/venv/bin/python -m pv.check "$@"
