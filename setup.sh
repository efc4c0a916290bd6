#!/bin/bash
# Nothing to build: the verifier is Python run from source.  Check the tools.
set -e
cd "$(dirname "$0")"
mkdir -p evidence/replays
/opt/venv/bin/python -B - <<'PY'
import sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3
print('z3', z3.get_version_string())
PY
cvc5 --version | head -1
