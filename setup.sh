#!/bin/bash
# nothing to build: checks that the interpreter and the solver are there
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
JAX_PLATFORMS=cpu PYTHONPATH="$PWD" /opt/venv/bin/python -c "import vc.smt, vc.core; print('ok')"
