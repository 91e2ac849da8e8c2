#!/bin/bash
# run.sh <property id> [quick|thorough] [extra args]
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONNOUSERSITE=1 MPLBACKEND=Agg TZ=UTC OMP_NUM_THREADS=1
export OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
unset CIS_DATA_HOME CIS_PLUGIN_HOME PYTHONPATH CIS_FORCE_OVERWRITE
SCRATCH=$(mktemp -d /tmp/symx.XXXXXX)
export SYMX_SCRATCH="$SCRATCH" MPLCONFIGDIR="$SCRATCH/mpl"
mkdir -p "$MPLCONFIGDIR"
trap 'rm -rf -- "$SCRATCH"' EXIT
id="$1"; tier="${2:-${VERIF_TIER:-quick}}"; shift; [ $# -gt 0 ] && shift
/opt/venv/bin/python -m symx.run "$id" --tier "$tier" "$@"
exit $?
