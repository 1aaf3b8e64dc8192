#!/bin/bash
# gobuild.sh REPO DIR EXE: the Go side of L02 and L03, from REPO/ecgo, in DIR
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
D=$2
mkdir -p "$D"
cp -r "$1/ecgo" "$D/"
rm -rf "$D/ecgo/examples"
# of the test helpers, those that need neither the builder nor gnark's front end
for f in "$D"/ecgo/test/*.go; do
    if grep -q '_test.go$' <<<"$f" || grep -q '/ecgo"$\|gnark/frontend"\|"testing"' "$f"; then rm "$f"; fi
done
mkdir -p "$D/cmd"
cp "$V"/harness/gofront/*.go "$D/cmd/"
cp "$V/shims/gosrc/wrapper/wrapper.go" "$D/ecgo/rust/wrapper/wrapper.go"
cat > "$D/go.mod" <<M
module github.com/PolyhedraZK/ExpanderCompilerCollection

go 1.21

require (
	github.com/consensys/gnark v0.10.0
	github.com/consensys/gnark-crypto v0.13.0
)

replace github.com/consensys/gnark => $V/shims/gosrc/gnark

replace github.com/consensys/gnark-crypto => $V/shims/gosrc/gnark-crypto
M
cd "$D"
GOCACHE=$D/cache GOPATH=$D/path GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local CGO_ENABLED=0 GOTELEMETRY=off go build -o "$3" ./cmd
