#!/bin/bash
# run.sh <property> <tier>
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python check.py "$1" --tier "$2"
