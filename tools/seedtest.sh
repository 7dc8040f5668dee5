#!/bin/bash
# seedtest.sh ID...  : apply a planted bug to /repo, build, run tests, demo and the property's check, undo
cd /repo || exit 9
[ -z "$(git status --porcelain --untracked-files=no)" ] || { echo "/repo not clean"; exit 9; }
for id in "$@"; do
  S=/verif/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  bash $S/demo.sh >/tmp/seed.demo0 2>&1; d0=$?
  git apply $S/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/seed.build 2>&1; b=$?
  bash /opt/vp/test.sh /tmp/seed.json >/tmp/seed.test 2>&1; t=$(python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'));r=json.load(open('/tmp/seed.json'))
s=set(b.get('stable') or b.get('passed') or b.get('tests'));print('ok' if s<=set(r['passed']) else 'BROKEN '+str(sorted(s-set(r['passed']))[:3]))")
  bash $S/demo.sh >/tmp/seed.demo1 2>&1; d1=$?
  o=$(python3 /verif/check.py $P --tier quick 2>&1); c=$?
  git checkout -q -- .
  v=$(echo "$o" | grep -c "^VIOLATION property=$P ")
  echo "$id ($P): build $b tests $t demo $d0/$d1 check $c violations $v $([ $d0 = 0 ] && [ $d1 != 0 ] && [ "$t" = ok ] || echo INVALID) $([ $c = 1 ] && [ $v -gt 0 ] && echo CAUGHT || echo MISSED)"
done
