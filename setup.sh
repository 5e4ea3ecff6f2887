#!/bin/bash
# nothing has to be built: check that the interpreter, its packages and the code under test can be loaded
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=agg
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
"$py" -c "import numpy, scipy, matplotlib; from sim import boot, engine; print('bdld sources', boot.source_digest())"
