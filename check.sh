#!/bin/bash
# usage: check.sh C01 quick|thorough    Runs the check of one property against /repo's working tree.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export HOME="${HOME:-/root}"
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod
bin="$here/bin/gosym"
if [ ! -x "$bin" ] || [ -n "$(find "$here/engine" -name '*.go' -newer "$bin" -print -quit)" ]; then
	mkdir -p "$here/bin"
	(cd "$here/engine" && go build -o "$bin.$$" . && mv "$bin.$$" "$bin") || { echo "cannot build the engine" >&2; exit 3; }
fi
[ "$1" = build ] && exit 0
exec "$bin" check -property "$1" -tier "${2:-quick}" -repo /repo -verif "$here" "${@:3}"
