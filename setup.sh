#!/bin/bash
# Nothing is compiled: checks import /repo's working tree. This only makes sure that the interpreter and the code are there.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
mkdir -p evidence
exec /opt/venv/bin/python -c "
import sys; sys.path.insert(0,'mc')
import core
core.esat('esat.model.sa'); core.esat('esat.model.batch_sa'); core.esat('esat_eval.simulator')
print('setup ok')"
