#!/bin/bash
# nothing to build: the engine is Python and reads /repo on every run; this checks that the tools are there
set -e
cd "$(dirname "$0")"
mkdir -p evidence
/opt/veriftools/pyvenv/bin/python -c "import z3, numpy; print('z3', z3.get_version_string())"
/opt/venv/bin/python -c "import numpy, scipy; print('numpy', numpy.__version__)"
