#!/bin/bash
# nothing to build: check that the interpreter, jax and z3 are there
cd "$(dirname "$0")" && mkdir -p evidence && /opt/venv/bin/python -c "
import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import jax, z3, sympy; print('z3', z3.get_version_string(), 'jax', jax.__version__)"
