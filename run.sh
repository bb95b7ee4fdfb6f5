#!/bin/bash
# usage: run.sh <property id> <quick|thorough> [--replay FILE]
# Runs one property monitor against /repo's current working tree.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PIP_NO_INDEX=1 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1
export DASK_SCHEDULER=synchronous PYTHONWARNINGS=ignore
mpl=$(mktemp -d /tmp/rv_mpl.XXXXXX)
export MPLCONFIGDIR="$mpl"
trap '/bin/rm -rf -- "$mpl"' EXIT
id=$1; tier=$2; shift 2
/opt/venv/bin/python -m rv.check "$id" --tier "$tier" "$@"
rc=$?
exit $rc
