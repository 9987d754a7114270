#!/bin/bash
# run.sh <property id> [--replay FILE]: one check; see lib/runner.py
# run.sh setup: see that the tools are there (every check builds what it needs itself)
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
if [ "$1" = setup ]; then
  gcc --version >/dev/null && g++ --version >/dev/null && exec /opt/venv/bin/python -c "import numpy, scipy, pandas, setuptools"
  exit 2
fi
exec /opt/venv/bin/python -m lib.runner "$@"
