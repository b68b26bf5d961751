#!/bin/bash
# setup.sh: compiles everything once, so that the build cache is warm.
dir=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off VERIF_REPO=${VERIF_REPO:-/repo}
mkdir -p "$dir/evidence"
tmp=$(mktemp -d) || exit 1
trap 'rm -rf "$tmp"' EXIT
python3 "$dir/tools/overlay.py" "$VERIF_REPO" "$dir/harness" > "$tmp/overlay.json" || exit 1
cd "$VERIF_REPO" || exit 1
for cmd in "$dir"/harness/cmd/*/; do
    name=$(basename "$cmd")
    go build -overlay "$tmp/overlay.json" -o "$tmp/$name" "./zz_verif/cmd/$name" || exit 1
done
# what the checks of the programs compile
go build -o "$tmp/bin/" ./cmd/... ./wasm/aqlparse/server || exit 1
GOOS=js GOARCH=wasm go build -o "$tmp/module" ./wasm/aqlparse || exit 1
# what the check of concurrent use compiles with the race detector
go build -race -overlay "$tmp/overlay.json" -o "$tmp/race" ./zz_verif/cmd/concrun || exit 1
# the parser generator, for the check of the grammar file
cp go.mod "$tmp/go.mod" && cp go.sum "$tmp/go.sum" && go build -modfile "$tmp/go.mod" -o "$tmp/pigeon" github.com/mna/pigeon || true
