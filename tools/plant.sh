#!/bin/bash
# tools/plant.sh ID PROPERTY [CHECKS...]: takes the edit that currently lies in /repo's working tree, with
# seeded/ID/demo.sh already written, as planted bug ID; confirms it and shows which checks catch it; undoes it.
id=$1; prop=$2; shift 2
S=/verif/seeded/$id
cd /repo || exit 2
[ -f $S/demo.sh ] || { echo "no demo"; exit 2; }
git diff > $S/patch.diff
[ -s $S/patch.diff ] || { echo "no edit in /repo"; exit 2; }
undo() { git -C /repo checkout -q -- .; rm -rf /repo/output_sky130A; }
trap undo EXIT
ok=1
bash /opt/vp/build.sh >/tmp/plant.build 2>&1 || { echo "does not build"; tail -5 /tmp/plant.build; ok=0; }
bash /opt/vp/test.sh /tmp/plant.json >/tmp/plant.test 2>&1
/usr/bin/python3 - <<'P' || ok=0
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; r=json.load(open('/tmp/plant.json'))
s=json.dumps(r)
p=r.get('passed') if isinstance(r,dict) else None
if p is None: print(list(r)[:5])
bad=[t for t in b if t not in set(p)]
print('stable tests broken:',bad); raise SystemExit(1 if bad else 0)
P
git -C /repo checkout -q -- testdata 2>/dev/null
timeout 300 bash $S/demo.sh >/tmp/plant.demo 2>&1; rc=$?
[ $rc -ne 0 ] && echo "demo with patch: $rc ($(tail -1 /tmp/plant.demo | cut -c1-200))" || { echo "DEMO PASSES WITH PATCH"; ok=0; }
for c in $prop "$@"; do
    (cd /verif && timeout 900 bin/check $c >/tmp/plant.check 2>&1; echo "check $c: exit $? $(grep -A1 VIOLATION /tmp/plant.check | head -2 | cut -c1-260 | tr '\n' ' ')$(grep -A2 INCONCL /tmp/plant.check | cut -c1-400)")
done
undo
bash /opt/vp/build.sh >/tmp/plant.build 2>&1
timeout 300 bash $S/demo.sh >/tmp/plant.demo 2>&1; rc=$?
[ $rc -eq 0 ] && echo "demo clean: 0" || { echo "DEMO FAILS ON CLEAN TREE"; tail -3 /tmp/plant.demo; ok=0; }
[ $ok = 1 ] && echo "PLANTED $id" || echo "NOT VALID: $id"
