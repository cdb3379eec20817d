#!/bin/bash
# verbose run for development: v.sh <property> <tier> [substring]
cd /verif; exec timeout ${T:-900} /opt/venv/bin/python check.py "$1" --tier "$2" -v ${3:+--only "$3"}
