#!/bin/bash
# usage: check.sh <property id> quick|thorough [space ...] [-v]   |   check.sh --replay <file>
# Explores /repo's current working tree (pure Python: "building" is importing it afresh,
# with a private byte-code cache so that no stale .pyc can be picked up).
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export PYTHONHASHSEED=0 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1
tmp=$(mktemp -d /tmp/verif_run_XXXXXX) || exit 3
export PYTHONPYCACHEPREFIX="$tmp/pyc" MPLCONFIGDIR="$tmp/mpl" VERIF_TMP="$tmp"
mkdir -p "$tmp/mpl"
export PYTHONPATH="$here"
cd "$tmp" || exit 3
/opt/venv/bin/python -m mc "$@"
rc=$?
cd /
rm -rf -- "$tmp"
exit $rc
