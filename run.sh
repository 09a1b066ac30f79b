#!/bin/bash
# run.sh PROP [options]: one check against /repo's working tree
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore
unset PYTHONPATH DJANGO_SETTINGS_MODULE
exec /opt/venv/bin/python harness/main.py "$@"
