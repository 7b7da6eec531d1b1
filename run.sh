#!/bin/bash
# bash run.sh C01 [options]: runs the check of one property against /repo's working tree
cd "$(dirname "$(readlink -f "$0")")" || exit 3
export HOME=${HOME:-/root} LANG=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
# the package is imported from /repo/src itself, through a link as the README sets it up
LINK=$(mktemp -d /tmp/vf_path.XXXXXX) || exit 3
trap 'rm -rf "$LINK"' EXIT
ln -s /repo/src "$LINK/wfa_planning_evaluation_framework"
export PYTHONPATH="$LINK:$PWD/stubs:$PWD"
/opt/venv39/bin/python -m vf.run "$@"
exit $?
