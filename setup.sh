#!/bin/bash
# Checks that everything the framework needs is present offline. Nothing is left behind
# that a check relies on.
set -e
cd "$(dirname "$0")"
/opt/venv/bin/python - <<'PY'
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, ".")
from pbt import env
env.setup_jax()
import hypothesis, optimistix
print("hypothesis", hypothesis.__version__, "optimistix", optimistix.__file__)
PY
