#!/bin/bash
# usage: run.sh ID [quick|thorough] [--replay FILE|phase/index]
# Builds the harness against the working tree of /repo (VERIF_REPO overrides,
# for scratch copies) in a scratch directory of its own, runs one check, and
# removes the scratch directory.
ID="$1"; shift
TIER="${VERIF_TIER:-quick}"
case "$1" in quick|thorough) TIER="$1"; shift;; esac
REPLAY=""
if [ "$1" = "--replay" ]; then REPLAY="$2"; fi
VERIF="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
REPO="${VERIF_REPO:-/repo}"
SEED="${VERIF_SEED:-1}"
export HOME="${HOME:-/root}"
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off
export GOPATH="${GOPATH:-/root/go}" GOMODCACHE="${GOMODCACHE:-/root/go/pkg/mod}" GOCACHE="${GOCACHE:-/root/.cache/go-build}"
export GIT_CONFIG_NOSYSTEM=1
SCRATCH="$(mktemp -d /tmp/verif-XXXXXXXX)" || exit 2
trap 'rm -rf "$SCRATCH"' EXIT
cp "$VERIF/harness/go.sum" "$SCRATCH/mod.sum"
sed "s|=> /repo|=> $REPO|" "$VERIF/harness/go.mod" > "$SCRATCH/mod.mod"
mkdir -p "$SCRATCH/bin" "$SCRATCH/cov" "$SCRATCH/run"
BUILD="-modfile=$SCRATCH/mod.mod -o $SCRATCH/bin/harness"
case "$ID" in
C16|C23) FLAGS="-race";;
*) FLAGS="-cover -covermode=atomic -coverpkg=github.com/schemalex/schemalex/...,verif/harness"; export GOCOVERDIR="$SCRATCH/cov";;
esac
cd "$VERIF/harness" || exit 2
if ! go build $FLAGS $BUILD . 2>"$SCRATCH/build.log"; then
  echo "ERROR the harness does not build against $REPO"; tail -30 "$SCRATCH/build.log"; exit 2
fi
case "$ID" in
C21) (cd "$REPO" && go build -o "$SCRATCH/bin/" ./cmd/...) 2>"$SCRATCH/build.log" || { echo "ERROR the commands do not build"; tail -30 "$SCRATCH/build.log"; exit 2; };;
C26)
  # the same program again, against a copy of the tree whose generated files
  # have been generated anew
  G="$SCRATCH/gen"
  mkdir "$G" && tar -C "$REPO" --exclude=./.git --exclude=./artifacts --exclude=./release -cf - . | tar -C "$G" -xf - || { echo "ERROR no copy of $REPO"; exit 2; }
  (cd "$G" && find . -type f | sort > "$SCRATCH/gen.before" && { find . -name '*.go' -exec grep -lE '^// Code generated .* DO NOT EDIT\.$' {} + | xargs cat > "$SCRATCH/gen.words"; find . -type f -exec touch -d 2001-01-01 {} +; })
  (cd "$G" && go build -o "$SCRATCH/bin/" ./internal/cmd/...) >"$SCRATCH/gen.log" 2>&1
  echo "rc $?" >> "$SCRATCH/gen.log"
  (cd "$G" && go generate ./...) >>"$SCRATCH/gen.log" 2>&1
  echo "rc $?" >> "$SCRATCH/gen.log"
  (cd "$G" && find . -name '*.go' -exec grep -lE '^// Code generated .* DO NOT EDIT\.$' {} + | xargs cat >> "$SCRATCH/gen.words")
  sed "s|=> /repo|=> $G|" "$VERIF/harness/go.mod" > "$SCRATCH/twin.mod"; cp "$VERIF/harness/go.sum" "$SCRATCH/twin.sum"
  go build "-modfile=$SCRATCH/twin.mod" -o "$SCRATCH/bin/twin" . >>"$SCRATCH/gen.log" 2>&1
  echo "rc $?" >> "$SCRATCH/gen.log"
  ;;
esac
export TMPDIR="$SCRATCH/run"
if [ -n "$REPLAY" ]; then
  "$SCRATCH/bin/harness" -id "$ID" -tier "$TIER" -seed "$SEED" -scratch "$SCRATCH/run" -bindir "$SCRATCH/bin" -verif "$VERIF" -replay "$REPLAY"
  exit $?
fi
"$SCRATCH/bin/harness" -id "$ID" -tier "$TIER" -seed "$SEED" -shards "${VERIF_SHARDS:-8}" -scratch "$SCRATCH/run" -bindir "$SCRATCH/bin" -verif "$VERIF" -maxviol "${VERIF_MAXVIOL:-3}"
exit $?
