#!/bin/bash
# Nothing to compile: checks that the runtime is there and that the library can be imported with the monitors.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=. MPLBACKEND=Agg MPLCONFIGDIR="$(mktemp -d)" /opt/venv-pypy/bin/python -c 'import vf.boot, vf.mon, vf.core; print("ok")'
