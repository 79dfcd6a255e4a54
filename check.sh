#!/bin/bash
# check.sh PROPERTY quick|thorough        search for a violation
# check.sh PROPERTY replay FILE           replay one
# check.sh X scenario NAME[,NAME] FROM TO developer aid: run seeds of a scenario
set -u
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export SIM_VERIF=$here SIM_REPO=${SIM_REPO:-/repo}
SIM_DIR=$(mktemp -d "${TMPDIR:-/tmp}/gcsim.XXXXXX") || exit 2
export SIM_DIR
trap 'rm -rf "$SIM_DIR"' EXIT
# The patched standard library goes to a build cache of its own.
export GOCACHE=${SIM_GOCACHE:-$SIM_DIR/gocache}
(cd "$here/driver" && GOFLAGS= go build -o "$SIM_DIR/driver" .) || exit 2
"$SIM_DIR/driver" "$@"
exit $?
