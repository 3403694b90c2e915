#!/bin/bash
# Usage: check.sh <property id> [quick|thorough]
# Runs one check against /repo's current working tree.  The code is imported from
# /repo/src (and /repo/cosmosis_modules), never from an installed copy.
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
export VERIF_SEED="${VERIF_SEED:-1}"
export VF_HOME="$here" VF_REPO="${VF_REPO:-/repo}"
export PYTHONPATH="$here:$VF_REPO/src" PYTHONDONTWRITEBYTECODE=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1
export PYTHONHASHSEED=0 MPLBACKEND=Agg
cd "$here" && exec python -W ignore -m vf.main "$1"
