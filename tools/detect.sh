#!/bin/bash
# detect.sh <id|patch file>[:PXX]...: run the check of the property (or PXX, or all with :all) against each planted bug
# (a clone of /repo, bind-mounted over /repo in a private namespace); prints rc and the violation line
for A in "$@"; do
  ID=${A%%:*}; PP=${A#*:}; F=/verif/seeded/$ID/patch.diff; [ -f "$ID" ] && F=$(realpath $ID)
  if [ "$PP" = "$A" ]; then PP=$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])"); fi
  [ "$PP" = all ] && PP=$(cd /verif/rules; ls p*.py | sed 's/.py//' | tr p P)
  D=/tmp/det_$$; rm -rf $D; git clone -q /repo $D; mkdir -p $D/_build
  git -C $D apply $F || { echo "$ID patch fails"; continue; }
  for P in $PP; do
  unshare -Urm bash -c "mkdir -p /tmp/det_b_$$; mount --bind /repo/_build $D/_build; mount --rbind $D /repo; mount --bind /tmp/det_ev /verif/evidence; /verif/check $P quick > /tmp/det_$$.out 2>&1; echo \$? > /tmp/det_$$.rc"
  echo "$ID $P rc=$(cat /tmp/det_$$.rc) $(grep -m1 VIOLATION /tmp/det_$$.out) | $(tail -1 /tmp/det_$$.out)"
  done
  rm -rf $D /tmp/det_b_$$
done
