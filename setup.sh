#!/bin/bash
# Nothing to build: pure Python. Verifies that the interpreter and the code under test are usable.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
cd "$here" || exit 3
mkdir -p evidence/replays
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$here" /opt/venv/bin/python -c 'import numpy, pandas, scipy, mon.core' || exit 3
echo ready
