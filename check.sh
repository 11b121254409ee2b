#!/bin/bash
# check.sh ID : builds the monitors of property ID from /repo's working tree
# (race detector on) and runs them. Exit 0 held, 1 violation, 2 no answer.
id=${1:?usage: check.sh ID}
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export VERIF_DIR=$here
VERIF_GOROOT=$("$GO126" env GOROOT) && export VERIF_GOROOT
case $id in
  S*|H*|F*) pkg=hstream ;;
  O*) pkg=hoverlay ;;
  P*) pkg=hsftp ;;
  A*) pkg=hafero ;;
  V01) pkg=hroot ;;
  R*) pkg=hleak ;;
  *) pkg=hfs ;;
esac
bin=$(mktemp -d /tmp/verif-bin-XXXXXX) || exit 2
chmod 755 "$bin"
trap 'rm -rf "$bin"' EXIT
cd "$here/harness" || exit 2
if ! GOWORK="$here/go.work" "$GO126" build -race -o "$bin/h" "./cmd/$pkg" >"$bin/build.log" 2>&1; then
  cat "$bin/build.log" >&2
  echo "build failed" >&2
  exit 2
fi
chmod 755 "$bin/h"
"$bin/h" check "$id"
