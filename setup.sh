#!/bin/bash
# nothing to build: check that the interpreter, the package's dependencies and z3 are there
cd "$(dirname "$0")" || exit 2
PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python -c 'import sys; sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages"); import numpy, z3; print("numpy", numpy.__version__, "z3", z3.get_version_string())'
