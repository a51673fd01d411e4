#!/bin/bash
# tryseed.sh ID...: the check of each planted change's property, against a scratch copy of /repo with the change
S=${MUT:-/tmp/mut}
for id in "$@"; do
  d=/verif/seeded/$id
  mkdir -p $S/src
  rsync -rlpgoD --checksum --delete --exclude .git --exclude _build --exclude build /repo/ $S/src/
  (cd $S/src && patch -s -p1 < $d/patch.diff) || { echo "$id: does not apply"; continue; }
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  s=$(date +%s)
  MC_REPO=$S/src MC_BUILD=$S/build MC_EVIDENCE=$S/ev /verif/check $p > $S/log 2>&1; rc=$?
  echo "$id: $p exit $rc in $(( $(date +%s) - s )) s, $(grep -c ^VIOLATION $S/log) lines; $(grep -m1 key= $S/log | cut -c1-150)"
done
