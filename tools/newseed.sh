#!/bin/bash
# newseed.sh ID PROP: makes seeded/ID/patch.diff from the working tree of /repo, undoes it there.
set -e
d=/verif/seeded/$1; mkdir -p $d
git -C /repo diff > $d/patch.diff; git -C /repo checkout -- .
test -s $d/patch.diff
