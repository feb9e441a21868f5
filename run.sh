#!/bin/bash
# ./run.sh setup | <PROPERTY> [--thorough] | replay <file>
cd "$(dirname "$(readlink -f "$0")")" || exit 3
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1 PYTHONUTF8=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONPATH="$PWD"
exec /opt/venv/bin/python -X faulthandler -m harness.main "$@"
