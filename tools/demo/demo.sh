#!/bin/bash
# Runs demo.go (beside this file) against the modules of the current directory.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
. /opt/vp/env.sh
t=$(mktemp -d /tmp/demo-XXXXXX) || exit 2
trap 'rm -rf "$t"' EXIT
mkdir "$t/demo" "$t/scratch" && cp "$here/demo.go" "$t/demo/main.go" || exit 2
printf 'module demo\n\ngo 1.26.2\n' >"$t/demo/go.mod"
{
  echo 'go 1.26.2'
  for m in fsutil stream tarfs vroot vroot-adapter/overlayfs vroot-adapter/sftpfs; do echo "use $repo/$m"; done
  echo "use $t/demo"
  p=github.com/ngicks/go-fsys-helper
  echo "replace $p/fsutil v0.0.0-20260816154526-c6c8f4c0c36f => $repo/fsutil"
  echo "replace $p/vroot v0.0.0-20260816141707-f9a55a9b10e0 => $repo/vroot"
  echo "replace $p/vroot v0.0.0-20260528191442-457556e7ce33 => $repo/vroot"
} >"$t/go.work"
race=; [ -e "$here/race" ] && race=-race
(cd "$t/demo" && GOWORK=$t/go.work "$GO126" build $race -o "$t/d" .) || exit 2
cd "$t/scratch" && timeout 250 "$t/d"
