#!/bin/bash
# check.sh <property> [quick|thorough] : rebuild /repo's extensions from its working tree, then explore.
#   VERIF_TIER=quick|thorough, VERIF_SEED (the exploration is exhaustive: the seed changes nothing)
cd "$(dirname "$0")" || exit 2
export HOME=/root LANG=C.UTF-8 LC_ALL=C.UTF-8
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg MPLCONFIGDIR=/opt/mplconfig
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 HDF5_USE_FILE_LOCKING=FALSE
unset PYTHONPATH
if ! out=$(bash /opt/vp/build.sh ext 2>&1); then echo "build failed"; echo "$out" | tail -20; exit 2; fi
VERIF="$PWD"
scratch=$(mktemp -d) || exit 2
trap 'rm -rf "$scratch"' EXIT
cd "$scratch" || exit 2
if [ "$1" != --replay ]; then [ -n "$2" ] && export VERIF_TIER="$2"; set -- "$1"; fi
PYTHONPATH="$VERIF" python -W ignore -m mc.run "$@"
exit $?
