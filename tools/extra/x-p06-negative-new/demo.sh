#!/bin/bash
# run in /repo after the build; exit 0: the property holds here, other: it is broken
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOSUMDB=off
tmp="$(mktemp -d)" || exit 2
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace": {"%s/zzdemo/main.go": "%s/main.go"}}' "$PWD" "$here" > "$tmp/overlay.json"
go build -overlay "$tmp/overlay.json" -o "$tmp/demo" ./zzdemo || exit 2
timeout 120 "$tmp/demo" || exit 1
