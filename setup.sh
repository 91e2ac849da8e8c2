#!/bin/bash
# Nothing to compile: checks that the interpreter, the solver and the code under test can be loaded offline.
cd "$(dirname "$0")" || exit 3
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR=$(mktemp -d) /opt/venv/bin/python - <<'PY'
import sys
sys.path.insert(0, '/repo'); sys.path.insert(0, '.')
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3, numpy, iris, cis
assert cis.__file__.startswith('/repo/'), cis.__file__
print('z3', z3.get_version_string(), 'numpy', numpy.__version__, 'iris', iris.__version__, 'cis', cis.__file__)
PY
