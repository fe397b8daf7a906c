#!/bin/bash
# usage: tools/one.sh SEED CHECK...: runs checks on a scratch copy of /repo with a planted bug
T=$(mktemp -d /tmp/rs-XXXXXX); cp -a /repo/. "$T"
git -C "$T" apply /verif/seeded/$1/patch.diff || exit 2
shift; /verif/tools/try.sh "$T" "$@" 2>&1 | cut -c1-300
rm -rf "$T"
