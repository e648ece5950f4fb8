#!/bin/bash
# usage: check.sh PROPERTY [--case N]
# Builds the monitor against /repo's working tree and runs one property's check.
set -u
cd "$(dirname "$0")" || exit 2
VERIF=$PWD
ID=$1; shift
EXTRA=()
if [ "${1:-}" = "--case" ]; then EXTRA=(-case "$2"); fi
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GO111MODULE=on GOWORK=off CGO_ENABLED=1
SEED=${VERIF_SEED:-1}
TIER=${VERIF_TIER:-quick}
RACE=
case " C08 " in *" $ID "*) RACE=-race ;; esac
WORK=$(mktemp -d /tmp/verif-build-XXXXXX) || exit 2
trap 'rm -rf "$WORK"' EXIT
export TMPDIR=$WORK
if ! (cd "$VERIF/harness" && go build -mod=readonly $RACE -o "$WORK/harness" .) >"$WORK/build.log" 2>&1; then
  cat "$WORK/build.log" >&2
  echo "BUILD-FAILED property=$ID" >&2
  exit 2
fi
"$WORK/harness" -mode check -prop "$ID" -tier "$TIER" -seed "$SEED" -verif "$VERIF" "${EXTRA[@]}"
exit $?
