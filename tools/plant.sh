#!/bin/bash
# confirm planted bugs: tools/plant.sh <id>...   (scratch copies, bind-mounted over /repo in a private namespace; 3 slots)
# logs /tmp/plant_<id>.log: base demo 0, patched demo != 0, baseline tests all pass
V=/verif
one() {
ID=$1; WT=$2; LOG=/tmp/plant_$ID.log
exec > $LOG 2>&1
[ -d $WT ] || cp -a /repo $WT
git -C $WT checkout -q -f -- . ; git -C $WT pull -q --ff-only /repo HEAD
rm -rf /tmp/sd_$ID; mkdir -p /tmp/sd_$ID; cp $V/seeded/$ID/* /tmp/sd_$ID/; rm -f /tmp/sd_$ID/patch.diff /tmp/sd_$ID/meta.json
cat > /tmp/plant_in_$ID.sh <<Z
ip link set lo up 2>/dev/null
mount --bind $WT /repo; cd /repo
bash /opt/vp/build.sh > /tmp/plant_$ID.b0 2>&1 || { echo BASEBUILD-FAILED; exit 1; }
timeout 300 bash /tmp/sd_$ID/demo.sh > /tmp/plant_$ID.d0 2>&1; echo "base demo: \$?"
git apply $V/seeded/$ID/patch.diff || { echo PATCH-FAILED; exit 1; }
bash /opt/vp/build.sh > /tmp/plant_$ID.b1 2>&1 || { echo BUILD-FAILED; grep -i error /tmp/plant_$ID.b1 | head; exit 1; }
timeout 300 bash /tmp/sd_$ID/demo.sh > /tmp/plant_$ID.d1 2>&1; echo "patched demo: \$?"
[ -n "$NOTEST" ] && exit 0
for k in 1 2; do
bash /opt/vp/test.sh /tmp/plant_$ID.json > /tmp/plant_$ID.t\$k 2>&1
python3 - <<Y && break
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); r=json.load(open('/tmp/plant_$ID.json'))
m=sorted(b-set(r['passed'])); print('tests run: missing',m[:10]); sys.exit(bool(m))
Y
done
Z
unshare -Urmnpf --mount-proc bash /tmp/plant_in_$ID.sh
git -C $WT checkout -q -f -- .
echo DONE
}
for ID in "$@"; do
  while :; do
    for s in 1 2 3; do
      if mkdir /tmp/slot_$s 2>/dev/null; then
        ( one $ID /tmp/wt_s$s; rmdir /tmp/slot_$s ) &
        sleep 1
        continue 3
      fi
    done
    sleep 3
  done
done
wait
