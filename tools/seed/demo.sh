#!/bin/bash
# run in the repository; exit 0: the property holds, 1: it is broken
here="$(cd "$(dirname "$0")" && pwd)"
pkg="$(cat "$here/pkg")"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
{
  echo '{"Replace": {'
  sep=""
  for f in "$here"/*_test.go; do
    echo "$sep\"$PWD/$pkg/zz_$(basename "$f")\": \"$f\""
    sep=","
  done
  echo '}}'
} > "$tmp/overlay.json"
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod TZ=UTC
out="$(go test -count=1 -timeout 120s -overlay "$tmp/overlay.json" -run 'TestSeededDemo' -v "./$pkg" 2>&1)"
rc=$?
echo "$out" | tail -30
echo "$out" | grep -q 'TestSeededDemo' || exit 3
exit $rc
