#!/bin/bash
# usage: tools/runseeds.sh [-a] [SEED...]: applies each planted bug to a scratch copy of /repo
# and runs the check of its property there (with -a: every check), outside /repo.
all=; [ "$1" = -a ] && { all=1; shift; }
cd /verif || exit 2
for s in ${*:-$(ls seeded)}; do
  s=$(basename "$s")
  prop=$(python3 -c "import json;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])")
  tree=$(mktemp -d /tmp/rs-XXXXXX); cp -a /repo/. "$tree"
  git -C "$tree" apply /verif/seeded/$s/patch.diff || { echo "$s DOES NOT APPLY"; rm -rf "$tree"; continue; }
  ids=$prop; [ -n "$all" ] && ids=$(python3 -c "import json;print(' '.join(c.get('property_id',c.get('property',c.get('id'))) for c in json.load(open('MANIFEST.json'))['checks']))" 2>/dev/null)
  t0=$(date +%s)
  out=$(tools/try.sh "$tree" $ids 2>&1)
  echo "$s [$prop] $(($(date +%s)-t0))s: $(echo "$out" | grep -o 'VIOLATION property=[A-Z0-9]*' | sort -u | tr '\n' ' ') $(echo "$out" | grep -q VIOLATION || echo "*** MISSED: $(echo "$out" | tail -3)")"
  rm -rf "$tree"
done
