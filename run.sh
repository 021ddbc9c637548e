#!/bin/bash
# run.sh build            build the analyser from the committed sources
# run.sh check <ID> [--tier quick|thorough]
# Builds outside the repository under test; nothing is fetched.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
for d in /opt/veriftools/go1.27.3/bin; do [ -x $d/go ] && PATH=$d:$PATH; done
export PATH GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off CGO_ENABLED=1 GOFLAGS=-mod=mod
export GOPATH=${GOPATH:-/root/go} GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOMODCACHE=${GOMODCACHE:-$GOPATH/pkg/mod}
export VERIF_DIR=$here
bin=$here/.bin/verif
build() {
    mkdir -p "$here/.bin" || exit 2
    (cd "$here/tool" && GOFLAGS=-mod=vendor go build -o "$bin.$$" . && mv -f "$bin.$$" "$bin") || exit 2
}
case "$1" in
build) build; exit 0 ;;
esac
if [ ! -x "$bin" ] || [ -n "$(find "$here/tool" -name '*.go' -newer "$bin" -print -quit)" ]; then build; fi
exec "$bin" "$@"
