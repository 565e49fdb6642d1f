#!/bin/bash
# check that the tools are there; remember the simplifications of sympy that the checks need again and again
cd "$(dirname "$0")" || exit 1
test -x /opt/venv/bin/python && java -version >/dev/null 2>&1 && test -f /opt/veriftools/tla/tla2tools.jar || exit 1
mkdir -p evidence
/opt/venv/bin/python -W ignore harness/fill.py || true
