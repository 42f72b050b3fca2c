#!/bin/bash
# Nothing to build: pure Python.  Checks that the interpreter and the code under test import.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo /opt/venv/bin/python -c "import ahkab, numpy, scipy, sympy" || exit 1
