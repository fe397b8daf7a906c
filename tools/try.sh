#!/bin/bash
# tools/try.sh TREE ID...: runs checks against another source tree (development aid).
. /opt/vp/env.sh
T=$1; shift
D=$(mktemp -d /tmp/try.XXXXXX); mkdir $D/.build
sed "s#=> /repo#=> $T#" /verif/mc/go.mod > $D/go.mod; cp /verif/mc/go.sum $D/go.sum
cp /verif/known-findings.txt $D/
(cd /verif/mc && go build -modfile $D/go.mod -o $D/mc .) || { rm -r "$D"; exit 3; }
case " $* " in *" C0"*) (cd /verif/mc && go build -race -modfile $D/go.mod -o $D/mc-race . && go build -o $D/instr ./instr && $D/instr $T $D/pts && go build -modfile $D/go.mod -overlay $D/pts/overlay.json -o $D/mc-pts .) || { rm -r "$D"; exit 3; };; esac
for i in "$@"; do VERIF_DIR=$D timeout 900 $D/mc run $i 2>&1 | cut -c1-600 | tail -${TAIL:-6}; done
rm -r "$D"
