#!/bin/bash
# build.sh [race]: builds the explorer from /verif/mc and /repo's working tree; with
# "race" also the one with Go's race detector and the one in which the library has
# scheduling points where it refers to package-level variables or synchronizes.
. /opt/vp/env.sh
cd /verif/mc || exit 2
B=/verif/.build
mkdir -p $B
go build -o $B/mc . || exit 2
if [ "$1" = race ]; then
  go build -race -o $B/mc-race . || exit 2
  go build -o $B/instr ./instr || exit 2
  find $B/pts -name '*.go' -delete 2>/dev/null
  if ! { $B/instr /repo $B/pts && go build -overlay $B/pts/overlay.json -o $B/mc-pts .; }; then
    echo "no scheduling points in the library" >&2
    [ -e $B/mc-pts ] && unlink $B/mc-pts
  fi
fi
exit 0
