#!/bin/bash
# runs demo_test.go beside ct-fetch, through an overlay
D=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/opt/veriftools/go1.24.13/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
unset GOROOT
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
R=$(pwd)
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
export TMPDIR=$W
m="\"$R/go/zzpki/pki.go\": \"$D/pki.go\""
for f in "$D"/*_test.go; do m="$m,\"$R/go/cmd/ct-fetch/zz_seed_$(basename "$f")\": \"$f\""; done
echo "{\"Replace\": {$m}}" > "$W/overlay.json"
cd "$R/go" && timeout 250 go test -vet=off -count=1 -overlay "$W/overlay.json" -run 'TestSeedDemo' ./cmd/ct-fetch
