#!/bin/bash
# check.sh <property> [quick|thorough]: decides one property for the tree in /repo
# check.sh selftest: the interpreters the checks need are there
cd "$(dirname "$0")" || exit 2
if [ "$1" = selftest ]; then
    /opt/venv/bin/python -B -c "import numpy, pandas" && python3-vt -B -c "import scipy.optimize" && mkdir -p evidence && echo ready
    exit
fi
exec env PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 \
    /opt/venv/bin/python -B run.py "$@"
