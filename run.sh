#!/bin/bash
# run.sh ID               run the check of a property (VERIF_TIER, VERIF_SEED)
# run.sh ID PHASE CASE    run a single case of it again
# Builds the harness and the tool from /repo's working tree into a scratch directory.
set -u
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export TZ=Asia/Kolkata GOSUMDB=off GONOSUMDB=* GOTELEMETRY=off
id=$1
b=$(mktemp -d /tmp/vhbuild.XXXXXX) || exit 3
trap 'rm -rf "$b"' EXIT
export VERIF_DIR=$here VERIF_BUILD=$b TMPDIR=$b
bash "$here/build.sh" "$b" "$id" >&2 || { echo "build failed" >&2; exit 3; }
if [ $# -ge 3 ]; then
  "$b/vh" one "$id" "$2" "$3"
else
  "$b/vh" check "$id"
fi
