#!/bin/bash
# run.sh ID | setup | replay FILE : builds the checker from /repo's current tree and runs one check.
set -u
ROOT="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off VERIF_ROOT="$ROOT"
command -v go >/dev/null || export PATH="/opt/veriftools/go1.27.3/bin:$PATH"
BUILD="$(mktemp -d /tmp/verif-mc.XXXXXX)"
trap 'rm -rf "$BUILD"' EXIT
cp "$ROOT"/mc/go.mod "$BUILD"/go.mod; cp "$ROOT"/mc/go.sum "$BUILD"/go.sum
# VERIF_REPO: development only, to point a run at a scratch copy
[ -n "${VERIF_REPO:-}" ] && sed -i "s#=> /repo\$#=> $VERIF_REPO#" "$BUILD/go.mod"
cd "$ROOT/mc" || exit 2
TAGS=timetzdata; EXTRA=()
case "$1 $(head -c 400 "${2:-/dev/null}" 2>/dev/null)" in
C07*|replay*'"property": "C07"'*) # the order of map iterations is under the check's control
	bash "$ROOT/mc/maphook/overlay.sh" "$BUILD" || exit 2
	TAGS=timetzdata,maphook; EXTRA=(-overlay "$BUILD/overlay.json") ;;
C02*|replay*'"property": "C02"'*) # scheduling points in every statement of the repository
	mkdir "$BUILD/in" || exit 2
	go run -modfile="$BUILD/go.mod" ./instr "${VERIF_REPO:-/repo}" "$ROOT/mc/sched" "$BUILD/in" || exit 2
	TAGS=timetzdata,sched; EXTRA=(-race -overlay "$BUILD/in/overlay.json") ;;
esac
export VERIF_BUILD="$BUILD"; export GORACE=exitcode=0
go build -modfile="$BUILD/go.mod" -tags "$TAGS" "${EXTRA[@]}" -o "$BUILD/mc" . || exit 2
[ "$1" = setup ] && exit 0
"$BUILD/mc" "$@"
