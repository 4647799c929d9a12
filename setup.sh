#!/bin/bash
# Nothing to compile: check that the interpreter, the framework and the package under test import.
cd "$(dirname "$0")" || exit 2
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec /opt/venv/bin/python -W ignore -c "import mc.boot, mc.harness, mc.ref; print('setup ok')"
