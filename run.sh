#!/bin/bash
# usage: run.sh <property id> [quick|thorough]
cd "$(dirname "$0")" || exit 2
export PATH=/opt/venv/bin:/usr/local/bin:/usr/bin:/bin
export LANG=${LANG:-C.UTF-8} PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export PYTHONPATH=${VERIF_REPO:-/repo}:$PWD/harness
export VERIF_TIER=${2:-${VERIF_TIER:-quick}}
exec /opt/venv/bin/python -W ignore "harness/check_$1.py"
