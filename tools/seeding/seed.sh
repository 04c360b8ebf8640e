#!/bin/bash
# seed.sh ID [nocheck]: validates /verif/seeded/ID against /repo and runs its check
id=$1; D=/verif/seeded/$id
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
prop=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
if [ "${2:-}" != checkonly ]; then
bash /opt/vp/build.sh >/tmp/b0.log 2>&1
t0=$(date +%s); timeout 300 bash $D/demo.sh >/tmp/demo0.log 2>&1; r0=$?; t1=$(date +%s)
echo "demo clean rc=$r0 ($((t1-t0))s)"; [ $r0 = 0 ] || tail -5 /tmp/demo0.log
fi
git apply $D/patch.diff || exit 1
if [ "${2:-}" != checkonly ]; then
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { echo BUILD FAILED; grep -A6 '^error' /tmp/b.log | head -30; exit 1; }
bash /opt/vp/test.sh /tmp/t.json >/tmp/t.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
base=set(b['stable'])
p=set(t['passed'])
print('stable tests failing:', sorted(base-p)[:8], len(base-p))
P
t0=$(date +%s); timeout 300 bash $D/demo.sh >/tmp/demo1.log 2>&1; r1=$?; t1=$(date +%s)
echo "demo patched rc=$r1 ($((t1-t0))s): $(tail -1 /tmp/demo1.log | cut -c1-150)"
fi
[ "${2:-}" = nocheck ] && exit
for p in ${3:-$prop}; do
t0=$(date +%s); timeout 900 bash /verif/run.sh $p >/tmp/chk.log 2>&1; rc=$?; t1=$(date +%s)
echo "check $p rc=$rc ($((t1-t0))s): $(grep -m1 VIOLATION /tmp/chk.log) | $(grep -v VIOLATION /tmp/chk.log | tail -2 | cut -c1-300)"
done
