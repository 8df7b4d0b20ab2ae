#!/bin/bash
# Runs the test beside this file inside the package it belongs to.
d=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
mkdir "$t/tmp"
pkg=$(cat "$d/pkg" 2>/dev/null || echo .)
printf '{"Replace":{"%s":"%s"}}' "$PWD/$pkg/zz_demo_test.go" "$d/demo_test.go" > "$t/overlay.json"
TMPDIR="$t/tmp" go test -overlay "$t/overlay.json" -vet=off -run 'TestDemo' -count=1 $(cat "$d/flags" 2>/dev/null) "./$pkg"
