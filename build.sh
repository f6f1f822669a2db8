#!/bin/bash
# usage: build.sh OUTDIR BINARY...   (BINARY: store, full; with suffix "race" for the race detector)
# Instruments /repo's current working tree and builds simulation binaries into OUTDIR.
set -u
VERIF=$(cd "$(dirname "$0")" && pwd)
REPO=${VERIF_REPO:-/repo}
OUT=$1; shift
export HOME=${HOME:-/root} PATH=/usr/local/go/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=1
unset GOOS GOARCH
die() { echo "build: $*" >&2; exit 2; }
mkdir -p "$OUT" "$VERIF/.build" || die "cannot make $OUT"
exec 9>"$VERIF/.build/lock"
flock 9
W=$VERIF/.build/work
rm -rf "$VERIF/.build/work"
mkdir -p "$W"
VER=$(sed -n 's/^[[:space:]]*\(require \)\?github.com\/amarin\/binutils \(v[^ ]*\).*/\2/p' "$REPO/go.mod" | head -1)
BIN=$(go env GOMODCACHE)/github.com/amarin/binutils@$VER
[ -d "$BIN" ] || die "amarin/binutils $VER is not in the module cache"
(cd "$VERIF/tools/instr" && go build -o "$W/instr" .) || die "instr does not build"
"$W/instr" "$REPO" "$BIN" "$VERIF" "$W" || die "instrumentation failed"
cd "$REPO" || die "no $REPO"
for p in "$@"; do
	race=
	[ "${p%race}" != "$p" ] && race=-race
	go build $race -overlay "$W/overlay.json" -modfile "$W/mod/go.mod" -o "$OUT/$p" "./internal/zzverif/${p%race}" || die "$p does not build"
done
cp "$W/sites.json" "$OUT/sites.json"
