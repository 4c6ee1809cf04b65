#!/bin/bash
# check.sh PROPERTY [harness flags]: builds the harness against /repo's current
# working tree and runs the property's monitors. Exit 0: held on everything
# explored; 1: violation (and a VIOLATION line); 2: no verdict.
prop=$1; shift
here=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GONOSUMDB=* GOFLAGS=-mod=mod
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export GOTOOLCHAIN=local GOPROXY=off
work=$(mktemp -d /tmp/verif.XXXXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
export TMPDIR=$work VERIF_SRC=/repo
mkdir "$work/cov" "$work/src" "$work/run"
cp "$here"/harness/*.go "$here"/harness/go.mod "$here"/harness/go.sum "$work/src/" || exit 2
cd "$work/src" || exit 2
case $prop in
C11)
  CGO_ENABLED=1 go build -race -o "$work/harness" . || { echo "BUILD FAILED"; exit 2; } ;;
*)
  "$here/tools/overlay.sh" "$work/cov" || { echo "INSTRUMENTATION FAILED"; exit 2; }
  CGO_ENABLED=0 go build -tags vcover -overlay "$work/cov/overlay.json" -o "$work/harness" . || { echo "BUILD FAILED"; exit 2; } ;;
esac
cd "$work/run"
"$work/harness" -prop "$prop" -tier "${VERIF_TIER:-quick}" -seed "${VERIF_SEED:-1}" -evidence "$here/evidence" "$@"
