#!/bin/bash
# check.sh ID: builds the explorer against /repo's working tree and runs the check
# of one property (VERIF_TIER=quick|thorough).
case "$1" in C*) R=race;; esac
/verif/build.sh $R || { echo "build failed" >&2; exit 2; }
exec /verif/.build/mc run "$1"
