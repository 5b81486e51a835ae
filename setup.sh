#!/bin/bash
# Nothing to build: checks that the interpreter and the solver the checks use are there.
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python - <<'P'
import sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import numpy, scipy, z3
print('numpy', numpy.__version__, 'scipy', scipy.__version__, 'z3', z3.get_version_string())
P
