#!/bin/bash
# Nothing to build: the library is pure Python and the specification is interpreted by TLC. Checks the toolchain is there.
set -e
java -version >/dev/null 2>&1
test -f /opt/veriftools/tla/tla2tools.jar
cd "$(dirname "$0")"
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo MPLBACKEND=Agg MPLCONFIGDIR=/root/.cache/matplotlib /opt/venv/bin/python -c 'import timeseria' >/dev/null 2>&1
echo setup ok
