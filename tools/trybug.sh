#!/bin/bash
# trybug.sh ID... : confirm planted changes in throwaway copies bound over /repo and /verif (own mount namespace)
# options via env: CHECKS="P01 P02" extra properties to run; NOCHECK=1
one() {
  id=$1; S=/verif/seeded/$id; W=/tmp/w/tb.$id; rm -rf "/tmp/w/tb.$id"; mkdir -p $W
  cp -a /repo $W/repo; mkdir $W/verif; cp -a /verif/. $W/verif/; cp -a $S $W/seed
  prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  unshare -Urm bash -s <<EOF > $W/log 2>&1
mount --bind $W/repo /repo; mount --bind $W/verif /verif; cd /repo
git checkout -q -- . ; bash /opt/vp/build.sh >/dev/null 2>&1
timeout 300 bash $W/seed/demo.sh > $W/demo0.log 2>&1; echo "demo-unchanged rc=\$?"
git apply $W/seed/patch.diff && echo applied || exit 9
bash /opt/vp/test.sh $W/t.json > $W/t.log 2>&1
python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('$W/t.json'))
bp=set(b.get('passed') or b.get('stable') or b)
print("tests-missing:", bp-set(t['passed']))
P
timeout 300 bash $W/seed/demo.sh > $W/demo1.log 2>&1; echo "demo-patched rc=\$?"
if [ -z "$NOCHECK" ]; then for p in $prop $CHECKS; do
cd /verif; export VERIF_SEED=1 VERIF_TIER=quick; timeout 900 python3 check.py \$p quick > $W/c.\$p.log 2>&1; rc=\$?; echo "check \$p rc=\$rc"; grep -h VIOLATION $W/c.\$p.log | head -3
grep -h '"key"' /verif/replay/\$p* 2>/dev/null | head -2
done; fi
EOF
  echo "== $id ($prop): $(tr '\n' ';' < $W/log)"
  [ -z "$KEEP" ] && rm -rf "/tmp/w/tb.$id"
}
export -f one; export NOCHECK CHECKS KEEP
printf '%s\n' "$@" | xargs -P 3 -I{} bash -c 'one {}'
