#!/bin/bash
# run.sh <PROPERTY> [--replay FILE]: builds the harness against /repo's working
# tree (race detector on) and decides one property. Exit 0 held, 1 violated,
# anything else: no answer.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export GOFLAGS=-mod=mod GOWORK=off
id=$1
shift
export VERIF_PROPERTY=$id VERIF_ROOT=$here
export VERIF_TIER=${VERIF_TIER:-quick} VERIF_SEED=${VERIF_SEED:-1}
if [ "$1" = "--replay" ]; then export VERIF_REPLAY=$2; fi
build=$(mktemp -d /tmp/verif-build.XXXXXX) || exit 2
trap 'rm -rf "$build"' EXIT
cp "$here/harness/go.mod" "$here/harness/go.sum" "$build/" || exit 2
# for experiments on a scratch copy only; the registered checks use /repo
[ -n "$VERIF_REPO" ] && sed -i "s#=> /repo\$#=> $VERIF_REPO#" "$build/go.mod"
cd "$here/harness" || exit 2
# some monitors need the speed of a build without the race detector, beside the one with it
plain=
grep -qx "$id" "$here/harness/plain.txt" && plain=$build/plain.test
if ! go test -c -race -modfile "$build/go.mod" -o "$build/harness.test" . >"$build/log" 2>&1 ||
	{ [ -n "$plain" ] && ! go test -c -modfile "$build/go.mod" -o "$plain" . >"$build/log" 2>&1; } ||
	{ [ "$id" = C30 ] && ! go build -race -modfile "$build/go.mod" -o "$build/demo.test" github.com/aceld/zinx/zinx_app_demo/mmo_game >"$build/log" 2>&1; }; then
	tail -n 60 "$build/log"
	echo "ERROR the harness does not build against /repo"
	exit 2
fi
export VERIF_PLAIN=$plain
cd "$build" || exit 2
"$build/harness.test"
rc=$?
exit $rc
