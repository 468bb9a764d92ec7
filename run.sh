#!/bin/bash
# run.sh PROPERTY [-replay=FILE]   decide one property against /repo's working tree.
# Exit 0: held; 1: violated (VIOLATION line); other: error of the check.
set -u
prop=$1; shift
verif=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS=-mod=mod GOENV=off LC_ALL=C
[ -d /usr/local/go/bin ] && export PATH=$PATH:/usr/local/go/bin
tier=${VERIF_TIER:-quick}
work=$(mktemp -d "${TMPDIR:-/tmp}/xcoremc.XXXXXX") || exit 2
cleanup() { [ -n "$work" ] && [ -d "$work" ] && rm -rf "$work"; }
trap cleanup EXIT
trap 'exit 2' INT TERM
# a failing check leaves no stale evidence behind
mkdir -p "$verif/evidence" "$verif/out"
[ -n "${MC_BUILD_ONLY:-}" ] || rm -f "$verif/evidence/$prop.json"
# the module is built from a copy so that the committed go.mod/go.sum stay as they are
cp -r "$verif/mc" "$work/src" || exit 2
cd "$work/src" || exit 2
go build -o "$work/instrument" ./cmd/instrument || exit 2
race=
case $prop in C03|C04|C11|C12|C17|C23|C25|C30|C31|C33) race=-race;; esac
built=
for level in full nochans nomaps none; do
  mkdir -p "$work/ov-$level"
  args=
  case $level in
    nochans) args=-nochans;;
    nomaps) args=-nomaps;;
    none) [ -n "$race" ] && break; args="-nomaps -nolocks";;
  esac
  "$work/instrument" -out "$work/ov-$level" $args /repo /repo/v2 || exit 2
  if go build $race -overlay "$work/ov-$level/overlay.json" -o "$work/mcbin" ./cmd/mc 2>"$work/build-$level.log"; then built=$level; break; fi
done
if [ -z "$built" ]; then
  echo "build failed:"; cat "$work"/build-full.log; exit 2
fi
[ -n "${MC_BUILD_ONLY:-}" ] && exit 0
export MC_WORK="$work"
export MC_INSTRUMENTATION="$built $(cat "$work/ov-$built/points.json")"
"$work/mcbin" -prop="$prop" -tier="$tier" -work="$work" -verif="$verif" "$@"
exit $?
