#!/bin/bash
# runs dst.main in a controlled environment
cd "$(dirname "$(readlink -f "$0")")/.." || exit 2
scratch=$(mktemp -d /tmp/dst-run.XXXXXX) || exit 2
trap 'rm -rf "$scratch"' EXIT
export MPLCONFIGDIR=$scratch MPLBACKEND=Agg TMPDIR=$scratch PYTHONDONTWRITEBYTECODE=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1
export PYTHONHASHSEED=${PYTHONHASHSEED:-0}
unset PYTHONPATH PYTHONSTARTUP
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
"$py" -W ignore -m dst.main "$@"
