#!/bin/bash
# nothing to compile: checks that the interpreter and the solver bindings the checks use are there
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
PYTHONPATH="$PWD" OMP_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import symx.core, symx.arr, symx.ten; print('ok')"
