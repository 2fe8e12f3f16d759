#!/bin/bash
# bash replay.sh FILE - re-executes one recorded violation
F=$(realpath "$1"); cd "$(dirname "$0")" || exit 2
export HOME=/root LANG=C.UTF-8 LC_ALL=C.UTF-8 MPLBACKEND=Agg BEEP_ENV=dev TQDM_OFF=1 AWS_EC2_METADATA_DISABLED=true
export PYTHONHASHSEED=${VERIF_HASHSEED:-0} PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 PYTHONWARNINGS=ignore
export BEEP_S3_CACHE=/sim/cache COLUMNS=200 TZ=UTC0
unset AWS_PROFILE AWS_ACCESS_KEY_ID BEEP_VERSION_TAG PYTHONPATH
exec /opt/venv/bin/python -m sim replay "$F"
