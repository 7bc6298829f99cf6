#!/bin/bash
# mkseed.sh <id>: take the edits made in /tmp/ed as seeded/<id>/patch.diff, add the demo scaffold, reset the edits
D=/verif/seeded/$1; mkdir -p $D
git -C /tmp/ed diff > $D/patch.diff; git -C /tmp/ed checkout -q -- .
cp /verif/tools/demo/common.sh /verif/tools/demo/util.h $D/
grep -q shim $D/demo.sh 2>/dev/null && cp /verif/tools/demo/shim.c $D/
wc -l $D/patch.diff
