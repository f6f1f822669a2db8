#!/bin/bash
# usage: check.sh ID [--replay FILE | --digest RUNS | other flags of the binary]
# Builds the simulation from /repo's working tree and decides property ID.
set -u
VERIF=$(cd "$(dirname "$0")" && pwd)
ID=${1:?usage: check.sh ID}; shift
fallback=
case $ID in
C01 | C02 | C03 | C04 | C16) bins=store ;;
C05 | C06) bins="store storerace" ;;
C08 | C25) bins="full fullrace" ;;
C07 | C09 | C10 | C11 | C17 | C18 | C22 | C23 | C24 | C27) bins=full ;;
C12 | C13 | C14 | C15 | C26) bins=cmds fallback=full ;;
C20 | C21) bins=cmds ;;
*) echo "no check for $ID" >&2; exit 2 ;;
esac
mkdir -p "$VERIF/.build" "$VERIF/evidence" "$VERIF/replays"
RUN=$(mktemp -d "$VERIF/.build/run.XXXXXX") || exit 2
trap 'rm -rf "$RUN"' EXIT
if ! bash "$VERIF/build.sh" "$RUN" $bins; then
	# the commands may need something that is not here; the library is decided without them
	[ -n "$fallback" ] || exit 2
	bins=$fallback
	bash "$VERIF/build.sh" "$RUN" $bins || exit 2
fi
set -- "$@"
bin=$RUN/${bins%% *}
race=
case $bins in *race) race="-race $RUN/${bins##* }" ;; esac
seed=${VERIF_SEED:-1}
[[ $seed =~ ^[0-9]+$ ]] || seed=$(printf %s "$seed" | cksum | cut -d' ' -f1)
tier=${VERIF_TIER:-quick}
case $tier in quick | thorough) ;; *) tier=quick ;; esac
if [ "${1:-}" = --replay ]; then
	f=$(realpath "${2:?--replay FILE}")
	case $(sed -n 's/.*"build": *"\([a-z]*\)".*/\1/p' "$f" | head -1) in race) bin=$RUN/${bins##* } ;; esac
	"$bin" -prop "$ID" -mode replay -file "$f" -verif "$VERIF" -v
	exit $?
fi
"$bin" -prop "$ID" -tier "$tier" -seed "$seed" -verif "$VERIF" $race "$@"
