#!/bin/bash
# seed.sh NAME : validates /verif/seeded/NAME in a scratch copy: applies, builds+passes stable tests (-t), demo, check
# usage: seed.sh NAME [-t]
N=$1; S=/verif/seeded/$N; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /repo && [ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 2; }
(cd /repo && timeout 300 bash $S/demo.sh >/tmp/seed.out 2>&1); A=$?
git apply $S/patch.diff || exit 3
(cd /repo && timeout 300 bash $S/demo.sh >/tmp/seed.out2 2>&1); Bx=$?
T=-
if [ "$2" = -t ]; then bash /opt/vp/test.sh /tmp/seed.json >/tmp/seed.log 2>&1; T=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed.json'))
b=b['stable']
print('tests-ok' if set(b)<=set(r['passed']) else 'TESTS-FAIL %s'%list(set(b)-set(r['passed']))[:3])"); fi
(cd /verif && timeout 900 python3-vt check.py $P quick > /tmp/seed.chk 2>&1); C=$?
git checkout -q -- .
echo "$N $P demo clean=$A bug=$Bx $T check=$C $(grep VIOLATION /tmp/seed.chk)"
