#!/bin/bash
# Builds the harness once, which checks the tools and fills Go's build cache.
set -e
cd "$(dirname "$0")"
exec 2>&1
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
work=$(mktemp -d /tmp/verif-setup.XXXXXXXX)
trap 'rm -rf "$work"' EXIT
mkdir "$work/cov" "$work/src"
cp harness/*.go harness/go.mod harness/go.sum "$work/src/"
cd "$work/src"
"$OLDPWD/tools/overlay.sh" "$work/cov"
CGO_ENABLED=0 go build -tags vcover -overlay "$work/cov/overlay.json" -o "$work/h1" .
CGO_ENABLED=1 go build -race -o "$work/h2" .
echo "setup done"
