#!/bin/bash
# Builds every simulation binary once, which fills the Go build cache.
VERIF=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$VERIF/.build"
T=$(mktemp -d "$VERIF/.build/setup.XXXXXX") || exit 1
trap 'rm -rf "$T"' EXIT
bash "$VERIF/build.sh" "$T" $(cd "$VERIF/harness" && for d in *; do echo "$d" "${d}race"; done)
