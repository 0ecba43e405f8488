#!/bin/bash
# check.sh <ID> [quick|thorough] [extra args]: decide one property on /repo's working tree
cd "$(dirname "$0")" || exit 3
id="$1"; tier="${2:-quick}"; shift; shift
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONPATH="$(pwd)" VERIF_TIER="$tier"
export MPLCONFIGDIR="$(mktemp -d /tmp/vpmpl.XXXXXX)"
/opt/venv/bin/python -m pbt.run "$id" --tier "$tier" "$@"
rc=$?
rm -rf -- "$MPLCONFIGDIR"
exit $rc
