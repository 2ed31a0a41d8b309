#!/bin/bash
# usage: run.sh <property id> [quick|thorough]   (or run.sh --replay FILE)
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg MPLCONFIGDIR="${MPLCONFIGDIR:-/tmp/mplcfg}" PYTHONWARNINGS=ignore
if [ "$1" = "--replay" ]; then exec /opt/venv/bin/python run.py --replay "$2"; fi
exec /opt/venv/bin/python run.py "$1" --tier "${2:-quick}" "${@:3}"
