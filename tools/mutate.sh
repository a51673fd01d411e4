#!/bin/bash
# mutate.sh [-R] PATCH CHECK...: runs checks against a scratch copy of /repo with PATCH applied (or reversed).
# Development aid: nothing in /repo changes.
rev=""; [ "$1" = -R ] && { rev=-R; shift; }
patch=$(readlink -f "$1"); shift
S=${MUT:-/tmp/mut}
mkdir -p $S/src $S/build $S/ev
rsync -rlpgoD --checksum --delete --exclude .git --exclude _build --exclude build /repo/ $S/src/
( cd $S/src && patch -s -p1 $rev < "$patch" ) || exit 3
for c in "$@"; do
  MC_REPO=$S/src MC_BUILD=$S/build MC_EVIDENCE=$S/ev /verif/check $c; echo "exit $? $c"
done
