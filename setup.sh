#!/bin/bash
# Builds the harness once, plain and with the race detector, to fill the build
# cache. Every check builds what it needs itself as well.
VERIF="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export HOME="${HOME:-/root}"
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off
T="$(mktemp -d /tmp/verif-setup-XXXXXXXX)" || exit 2
trap 'rm -rf "$T"' EXIT
cp "$VERIF/harness/go.mod" "$T/mod.mod"; cp "$VERIF/harness/go.sum" "$T/mod.sum"
cd "$VERIF/harness" || exit 2
go build -modfile="$T/mod.mod" -cover -covermode=atomic -coverpkg=github.com/schemalex/schemalex/...,verif/harness -o "$T/h" . || exit 1
go build -modfile="$T/mod.mod" -race -o "$T/h" . || exit 1
mkdir -p "$VERIF/evidence"
echo ok
