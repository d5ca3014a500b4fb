#!/bin/bash
# setup: warms the build caches; the checks build what they need themselves.
V="$(cd "$(dirname "$0")" && pwd)"
cd "$V/gover" && GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off go build -o /dev/null . || exit 1
for t in z3 z3-new cvc5; do command -v $t >/dev/null || { echo "$t missing"; exit 1; }; done
mkdir -p "$V/evidence"
