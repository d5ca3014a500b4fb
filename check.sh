#!/bin/bash
# check.sh PROPERTY: builds the verifier and decides the property on /repo's working tree.
set -u
V="$(cd "$(dirname "$0")" && pwd)"
D="$(mktemp -d)"
trap 'rm -rf "$D"' EXIT
cd "$V/gover" || exit 2
if ! GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off go build -o "$D/gover" . ; then
  echo "the verifier does not build"; exit 2
fi
cd "$V"
export TMPDIR="$D"
"$D/gover" -repo /repo -contracts "$V/contracts" -vdir "$V" -check "$1"
