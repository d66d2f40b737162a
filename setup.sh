#!/bin/bash
# Nothing to build: the checks import the code under test from /repo. Confirms that the interpreter and the framework load.
cd "$(dirname "$0")" || exit 3
export PYTHONPATH=/repo:$PWD PYTHONDONTWRITEBYTECODE=1
mkdir -p evidence
exec /opt/venv/bin/python -c 'import rv.core, rv.lib, scipy; print("framework loads")'
