#!/bin/bash
# Builds the harness once, which fills Go's build cache; every check builds it again from
# /repo's tree of that moment.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export GOFLAGS=-mod=mod GOWORK=off
b=$(mktemp -d /tmp/verif-build.XXXXXX) || exit 2
trap 'rm -rf "$b"' EXIT
cp "$here/harness/go.mod" "$here/harness/go.sum" "$b/" || exit 2
cd "$here/harness" && go test -c -race -modfile "$b/go.mod" -o "$b/h" . && go test -c -modfile "$b/go.mod" -o "$b/h" . &&
	go build -race -modfile "$b/go.mod" -o "$b/d" github.com/aceld/zinx/zinx_app_demo/mmo_game
