#!/bin/bash
# Nothing to compile: check that the framework and /repo's emc2 import in this sandbox.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
chmod +x run.sh
mkdir -p evidence
/opt/venv/bin/python -c "
import sys; sys.path.insert(0, '/repo')
import emc2, rv.core, rv.world, rv.ref, rv.check
print('emc2 from', emc2.__file__)"
