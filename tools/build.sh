#!/bin/bash
# build.sh DIR: builds DIR/sim from /repo's current working tree and the sources in ../sim.
set -e
here=$(cd "$(dirname "$0")/.." && pwd)
B=$1
repo=${SIM_REPO:-/repo}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off GOWORK=off
mkdir -p "$B"
(cd "$here/sim/instr" && go build -buildvcs=false -o "$B/instr" .)
common=$(cd "$repo" && go list -m -f '{{.Dir}}' github.com/matehaxor03/holistic_common)
commonv=$(cd "$repo" && go list -m -f '{{.Version}}' github.com/matehaxor03/holistic_common)
"$B/instr" -src "$repo" -dst "$B/repo" -sites "$B/sites.json"
"$B/instr" -src "$common" -dst "$B/common" -seams
if grep -q '^func IsNil(object interface{}) bool {' "$B"/common/common/*.go && grep -q '^func GetType(object interface{}) string {' "$B"/common/common/*.go; then
	sed -i -e 's/^func IsNil(object interface{}) bool {/func isNilOriginal(object interface{}) bool {/' \
		-e 's/^func GetType(object interface{}) string {/func getTypeOriginal(object interface{}) string {/' "$B"/common/common/*.go
	cp "$here/sim/isnil.go.txt" "$B/common/common/sim_isnil.go"
fi
mkdir -p "$B/simrt" && cp -r "$here"/sim/simrt/. "$B/simrt/"
cp "$here"/sim/harness/*.go "$B/"
cat > "$B/go.mod" <<M
module simharness

go 1.26

require (
	github.com/matehaxor03/holistic_common $commonv
	github.com/matehaxor03/holistic_json v0.0.0
	simrt v0.0.0
)

replace github.com/matehaxor03/holistic_json => ./repo

replace github.com/matehaxor03/holistic_common => ./common

replace simrt => ./simrt
M
cp "$repo/go.sum" "$B/go.sum" 2>/dev/null || true
cd "$B"
go build -buildvcs=false -o "$B/simbin" .
