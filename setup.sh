#!/bin/bash
# Nothing to build: the checks import the code of /repo. Shows it can be used.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence replays
exec env PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import numpy, pandas, tables, numba, yaml; print('environment ok')"
