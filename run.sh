#!/bin/bash
# bash run.sh ID [quick|thorough]   decides a property on /repo's working tree
# bash run.sh replay FILE           re-runs the case of a violation
# bash run.sh build                 builds the machinery
# exit 0: held, 1: violation (with a VIOLATION line)
V=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
. /opt/vp/env.sh
R=${VERIF_REPO:-/repo}
export VERIF_DIR=$V
mkdir -p "$V/.build" "$V/evidence"
S=$(mktemp -d /tmp/verif.XXXXXX)
export VERIF_SCRATCH=$S
trap 'rm -rf "$S"' EXIT
trap 'exit 2' INT TERM
exec python3 "$V/tools/drive.py" "$V" "$R" "$S" "$@" &
P=$!
wait $P
exit $?
