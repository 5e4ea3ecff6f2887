#!/bin/bash
# check.sh <property> [quick|thorough] : run one check against /repo's current working tree
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=agg PYTHONHASHSEED=${PYTHONHASHSEED:-0}
export MPLCONFIGDIR=${MPLCONFIGDIR:-$(mktemp -d)}
tier=${2:-quick}
exec_py=/opt/venv/bin/python
[ -x "$exec_py" ] || exec_py=python3
VERIF_TIER=$tier "$exec_py" -m sim "$1" --tier "$tier" "${@:3}"
rc=$?
case "$MPLCONFIGDIR" in /tmp/tmp.*) rm -rf -- "$MPLCONFIGDIR";; esac
exit $rc
