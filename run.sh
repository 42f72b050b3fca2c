#!/bin/bash
# run.sh <PROP> [quick|thorough] [extra args]   -- run one runtime-monitoring check
# Exit: 0 held on everything observed; 1 violation; other = inconclusive/error
here="$(cd "$(dirname "$0")" && pwd)"
prop="$1"; shift
tier="${1:-${VERIF_TIER:-quick}}"; shift || true
scratch="$(mktemp -d "${TMPDIR:-/tmp}/vf.${prop}.XXXXXX")" || exit 4
trap 'rm -rf -- "$scratch"' EXIT
export HOME="$scratch" TMPDIR="$scratch" MPLCONFIGDIR="$scratch/mpl" VF_SCRATCH="$scratch"
export PATH="/opt/venv/bin:$PATH" PYTHONPATH="/repo:$here" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export PYTHONWARNINGS=ignore MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONIOENCODING=utf-8 LC_ALL=C.UTF-8
export VERIF_SEED="${VERIF_SEED:-1}"
cd "$scratch" || exit 4
/opt/venv/bin/python -m vf.main "$prop" "$tier" "$@"
rc=$?
exit $rc
