#!/bin/bash
# usage: run.sh <property> [driver flags]
# Builds the harness against /repo's working tree and decides one property.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
id="$1"
shift
export VERIF_REPO=/repo
export GOFLAGS="-mod=readonly -buildvcs=false" GOPROXY=off GOSUMDB=off GOWORK=off GOTOOLCHAIN=local
tmp="$(mktemp -d /tmp/verif-run.XXXXXX)" || exit 3
trap 'rm -rf "$tmp"' EXIT
race=()
if [ "$id" = P20 ]; then
	export CGO_ENABLED=1
	race=(-race)
fi
(cd "$here/harness" && go build "${race[@]}" -o "$tmp/harness" .) || { echo "cannot build the harness" >&2; exit 3; }
if [ "$id" = P23 ]; then
	(cd /repo && GOOS=js GOARCH=wasm CGO_ENABLED=0 go build -ldflags "-X main.Version=v1.2.3-verif" -o "$tmp/soql.wasm" ./wasm) || { echo "cannot build the wasm module" >&2; exit 3; }
	cp "$here/harness/wasm_driver.js" "$(go env GOROOT)/lib/wasm/wasm_exec.js" "$tmp/" || exit 3
	export VERIF_WASM="$tmp"
fi
"$tmp/harness" -prop "$id" -verif "$here" "$@"
