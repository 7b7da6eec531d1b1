#!/bin/bash
# Nothing to build: checks the interpreter and that every check loads.
cd "$(dirname "$(readlink -f "$0")")" || exit 1
mkdir -p evidence
/opt/venv39/bin/python -c "import numpy, scipy, pandas, cvxpy" 2>/dev/null || { echo "interpreter or libraries missing"; exit 1; }
echo ok
