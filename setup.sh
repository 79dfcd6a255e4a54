#!/bin/bash
# Nothing is kept between runs: every check builds the simulator from /repo's
# current tree. This only verifies that the toolchain can do so.
set -eu
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
export GOCACHE="$d/gocache"
(cd "$here/driver" && GOFLAGS= go build -o "$d/driver" .)
go version
