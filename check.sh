#!/bin/bash
# check.sh <property>: builds the harness against /repo's working tree and runs one check.
# VERIF_SEED (default 1) and VERIF_TIER (quick or thorough) are taken from the environment.
set -u
cd "$(dirname "$0")" || exit 2
ROOT=$(pwd)
ID=$1
shift
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GO111MODULE=on GOWORK=off GONOSUMDB=* GOFLAGS=-mod=readonly
case " P17 P26 P27 " in
*" $ID "*) RACE=-race ;;
*) RACE= ;;
esac
BIN=$(mktemp -d /tmp/vcheck-$ID-XXXXXX) || exit 2
trap 'rm -rf "$BIN"' EXIT
if ! (cd harness && go build $RACE -o "$BIN/vh" .) 2>"$BIN/err"; then
	echo "the harness does not build:"
	cat "$BIN/err"
	exit 2
fi
"$BIN/vh" run -prop "$ID" -tier "${VERIF_TIER:-quick}" -seed "${VERIF_SEED:-1}" -root "$ROOT" "$@"
