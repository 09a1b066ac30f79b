#!/bin/bash
# Nothing to build: the harness is pure Python. Checks that it loads.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence replays
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore
cd harness && exec /opt/venv/bin/python -c "
import env, core, monbackend, main
print('harness ready')"
