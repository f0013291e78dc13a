#!/bin/bash
# build.sh DIR [ID]: builds what the check of property ID needs from /repo's working tree into DIR.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
b=$1 id=${2:-}
# copies, so that neither /repo's nor /verif's module files are touched
cp "$here/harness/go.mod" "$b/vh.mod"; cp "$here/harness/go.sum" "$b/vh.sum"
cp /repo/go.mod "$b/repo.mod"; cp /repo/go.sum "$b/repo.sum"
race=
case $id in C17) race=-race ;; esac
(cd "$here/harness" && go build $race -trimpath -modfile="$b/vh.mod" -o "$b/vh" ./vh)
case $id in
C01|C11|C16|C18|C21|C24|C25|C26|C27|setup) (cd /repo && go build -trimpath -buildvcs=false -modfile="$b/repo.mod" -o "$b/gpgpdump" .) ;;
esac
