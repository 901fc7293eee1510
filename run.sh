#!/bin/bash
# usage: run.sh <property> [quick|thorough]   (VERIF_TIER is the default tier)
# Runs one exhaustive check against the working tree of /repo (VERIF_REPO overrides the path, for
# trying the machinery on mutated scratch copies).
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1
scratch="$(mktemp -d /tmp/artemis-mc.XXXXXXXX)"
trap 'rm -rf "$scratch"' EXIT
export MPLCONFIGDIR="$scratch/mpl" VERIF_SCRATCH="$scratch" TMPDIR="$scratch"
mkdir -p "$MPLCONFIGDIR"
cp /opt/vp/mpl/* "$MPLCONFIGDIR"/ 2>/dev/null
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
cd "$here" || exit 2
"$py" -B -m mc.run "$@"
rc=$?
exit $rc
