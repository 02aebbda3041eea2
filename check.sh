#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decide one property on /repo's current tree
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg LC_ALL=C.UTF-8 USER=root LOGNAME=root TZ=UTC
export ASTROPY_CONFIG_DIR=/opt/vp/astropy_config RUBIN_SIM_DATA_DIR=/opt/vp/rubin_sim_data
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONPATH=/repo
export PYTHONWARNINGS=ignore
exec /opt/venv/bin/python symx/run.py "$1" --tier "${2:-quick}" "${@:3}"
