#!/bin/bash
# Nothing is compiled: checks import the code from /repo's working tree. This only verifies the environment.
cd "$(dirname "$0")" || exit 1
. ./env.sh
/opt/venv/bin/python -B -c "
import sys; sys.path.insert(0, 'harness')
import loader; loader.install()
import numpy, scipy, ufl, petsc4py, dxss.gmres
print('environment ok')"
