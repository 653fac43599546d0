#!/bin/bash
# Nothing to install: warms the build cache and checks that the harness builds.
V=$(cd "$(dirname "$0")" && pwd)
[ -r /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS="-mod=mod -buildvcs=false"
export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod}
work=$(mktemp -d /tmp/verif-setup-XXXXXXXX) || exit 3
trap 'rm -rf "$work"' EXIT
cp "$V"/harness/*.go "$V/harness/go.mod" "$V/harness/go.sum" "$work/"
cd "$work" && go build -cover -coverpkg=github.com/tc-hib/winres,github.com/tc-hib/winres/version -o "$work/vrun" . && go build -race -o "$work/vrun" . 
exit 0
