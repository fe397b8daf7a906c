#!/bin/bash
# Runs the demonstration beside this script against the tree in the current
# directory: exit 0 if the property holds there, nonzero if it is broken.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
root=$(pwd)
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
{
  printf '{"Replace": {'
  sep=
  for f in "$here"/*_test.go.txt; do
    printf '%s"%s/zzdemo/%s": "%s"' "$sep" "$root" "$(basename "$f" .txt)" "$f"
    sep=,
  done
  printf '}}\n'
} > "$work/overlay.json"
export GOFLAGS=-mod=mod
cp go.mod "$work/go.mod"; cp go.sum "$work/go.sum"
go test -c -vet=off ${RACE:+-race} -modfile "$work/go.mod" -overlay "$work/overlay.json" -o "$work/demo" ./zzdemo || exit 3
cd "$work" && ./demo -test.timeout 240s
