#!/bin/bash
# Checks build what they need themselves; this only warms the Go build cache and shows that the tools are there.
cd "$(dirname "$0")" || exit 1
export HOME=${HOME:-/root} PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOFLAGS=-mod=readonly GOPROXY=off
T=$(mktemp -d) || exit 1
trap 'rm -rf "$T"' EXIT
(cd harness && go build -o "$T/driver" . && go build -race -o "$T/driver-race" .) || exit 1
javac -nowarn -cp /opt/veriftools/tla/tla2tools.jar -d "$T" spec/java/*.java || exit 1
echo ready
