#!/bin/bash
# check.sh PROPERTY [--tier=thorough]: decides the property for the current
# source of the repository. Exits 0 or 1.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off CGO_ENABLED=0
export VERIF_DIR=$here
bin=$here/bin/checker
mkdir -p "$here/bin"
if ! (cd "$here/checker" && go build -o "$bin.$$" . && mv "$bin.$$" "$bin"); then
	echo "the checker does not build"
	exit 2
fi
[ "$1" = --build ] && exit 0
exec "$bin" check "$@"
