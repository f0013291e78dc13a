#!/bin/bash
# Warms the build cache: every check builds from /repo's tree again.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
b=$(mktemp -d /tmp/vhsetup.XXXXXX)
trap 'rm -rf "$b"' EXIT
export TMPDIR=$b
bash "$here/build.sh" "$b" setup
bash "$here/build.sh" "$b" C17
